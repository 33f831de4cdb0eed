From c5bc93fcf939d2e065a49f3c1a4fe87934963982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 01/55] fix: AnyPointer.is_struct/is_list/is_text follow far
 pointers

---
 capnpy/anypointer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/capnpy/anypointer.py b/capnpy/anypointer.py
index e701396..9972b8f 100644
--- a/capnpy/anypointer.py
+++ b/capnpy/anypointer.py
@@ -9,16 +9,22 @@ class AnyPointer(object):
         self.struct_ = struct_
         self.offset = offset
 
-    def is_struct(self):
+    def _read_ptr(self):
         p = self.struct_._read_fast_ptr(self.offset)
+        if ptr.kind(p) == ptr.FAR:
+            _, p = self.struct_._read_far_ptr(self.offset)
+        return p
+
+    def is_struct(self):
+        p = self._read_ptr()
         return ptr.kind(p) == ptr.STRUCT
 
     def is_list(self):
-        p = self.struct_._read_fast_ptr(self.offset)
+        p = self._read_ptr()
         return ptr.kind(p) == ptr.LIST
 
     def is_text(self):
-        p = self.struct_._read_fast_ptr(self.offset)
+        p = self._read_ptr()
         return (ptr.kind(p) == ptr.LIST and
                 ptr.list_size_tag(p) == ptr.LIST_SIZE_8)
 
-- 
2.43.0


From bda3d64310f94271bc7433680c8fa259e313c20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:23 +0000
Subject: [PATCH 02/55] fix: structs without fields can be constructed

---
 capnpy/compiler/fieldtree.py | 2 +-
 capnpy/compiler/struct_.py   | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/capnpy/compiler/fieldtree.py b/capnpy/compiler/fieldtree.py
index ff4c3b9..2a430b5 100644
--- a/capnpy/compiler/fieldtree.py
+++ b/capnpy/compiler/fieldtree.py
@@ -48,7 +48,7 @@ class FieldTree(AbstractNode):
         else:
             struct_node = struct_or_fields
             self.struct = struct_node.struct
-            fields = struct_node.get_struct_fields()
+            fields = struct_node.get_struct_fields() or []
         #
         if self.struct and self.struct.is_union():
             self.union = Union('anonymous', self.struct.discriminantOffset*2)
diff --git a/capnpy/compiler/struct_.py b/capnpy/compiler/struct_.py
index 432003c..0e16973 100644
--- a/capnpy/compiler/struct_.py
+++ b/capnpy/compiler/struct_.py
@@ -81,10 +81,9 @@ class Node__Struct:
             m.w()
             if self.struct.discriminantCount:
                 self._emit_union_tag(m)
-            if self.struct.fields is not None:
-                for field in self.get_struct_fields():
-                    field.emit(m, self)
-                self._emit_ctors(m)
+            for field in self.get_struct_fields() or []:
+                field.emit(m, self)
+            self._emit_ctors(m)
             self._emit_repr(m)
             self._emit_key_maybe(m)
         ns.w()
@@ -169,7 +168,7 @@ class Node__Struct:
         ns.w()
 
     def _emit_ctors_union(self, m, ns):
-        for f in self.get_struct_fields():
+        for f in self.get_struct_fields() or []:
             if f.is_part_of_union():
                 tag_field = f
                 fields = [f for f in self.get_struct_fields()
-- 
2.43.0


From f2db8e64b7586ede03b6da69675920cbf5fe45b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 03/55] fix: dumps() of an empty struct no longer writes a null
 root pointer

---
 capnpy/message.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/capnpy/message.py b/capnpy/message.py
index 84ba1b7..ed2ff48 100644
--- a/capnpy/message.py
+++ b/capnpy/message.py
@@ -157,7 +157,11 @@ def dumps(obj, fastpath=True):
         # do not create a temporary SegmentBuilder. The memcpy vs copy_pointer
         # difference seems negligible, for small objects at least.
         start = obj._data_offset
-        p = ptr.new_struct(0, obj._data_size, obj._ptrs_size)
+        if end == start:
+            # empty struct: with offset 0 it would be a null pointer
+            p = ptr.new_struct(-1, 0, 0)
+        else:
+            p = ptr.new_struct(0, obj._data_size, obj._ptrs_size)
         return obj._seg.dump_message(p, start, end)
     else:
         builder = SegmentBuilder()
-- 
2.43.0


From e58b519669dc57316ea4a7463af6904f3edb14f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 04/55] fix: lists of structs accept items of a different
 schema version

---
 capnpy/list.pxd                 |  3 +++
 capnpy/list.py                  | 10 +++++++++-
 capnpy/segment/_copy_list.py    | 16 +++++++++++++---
 capnpy/segment/_copy_pointer.py |  6 +++---
 capnpy/segment/builder.pxd      |  2 +-
 capnpy/segment/builder.py       |  7 ++++---
 capnpy/segment/builder.pyx      |  7 ++++---
 7 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/capnpy/list.pxd b/capnpy/list.pxd
index 6e46b07..59de92b 100644
--- a/capnpy/list.pxd
+++ b/capnpy/list.pxd
@@ -51,6 +51,9 @@ cdef class StructItemType(ItemType):
     cdef readonly long static_data_size
     cdef readonly long static_ptrs_size
 
+    cpdef write_struct(self, SegmentBuilder builder, long pos, object item,
+                       long data_size)
+
 cdef class TextItemType(ItemType):
     cdef readonly int additional_size
 
diff --git a/capnpy/list.py b/capnpy/list.py
index 84c4702..d54924e 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -298,12 +298,20 @@ class StructItemType(ItemType):
         return item.shortrepr()
 
     def write_item(self, builder, pos, item):
+        self.write_struct(builder, pos, item, self.static_data_size)
+
+    def write_struct(self, builder, pos, item, data_size):
+        """
+        Like write_item, but for lists in which the size of the data section of
+        each item is ``data_size``, which might be bigger than
+        static_data_size.
+        """
         structcls = self.structcls
         if not isinstance(item, structcls):
             raise TypeError("Expected an object of type %s, got %s instead" %
                             (self.structcls.__name__, item.__class__.__name__))
         p = item._as_pointer(0)
-        builder.copy_inline_struct(pos, item._seg, p, 0)
+        builder.copy_inline_struct(pos, item._seg, p, 0, pos + data_size*8)
 
 
 class TextItemType(ItemType):
diff --git a/capnpy/segment/_copy_list.py b/capnpy/segment/_copy_list.py
index 3e671e2..d1b97da 100644
--- a/capnpy/segment/_copy_list.py
+++ b/capnpy/segment/_copy_list.py
@@ -33,16 +33,26 @@ def copy_from_list(builder, pos, item_type, lst):
         struct_item_type = item_type
         data_size = struct_item_type.static_data_size
         ptrs_size = struct_item_type.static_ptrs_size
+        # items coming from a newer version of the schema might be bigger
+        for item in lst:
+            if isinstance(item, struct_item_type.structcls):
+                data_size = max(data_size, item._data_size)
+                ptrs_size = max(ptrs_size, item._ptrs_size)
+        item_length = (data_size+ptrs_size) * 8
+        body_length = item_length * item_count
         total_words = (data_size+ptrs_size) * item_count
         pos = builder.alloc_list(pos, size_tag, total_words,
                                  body_length + 8) # +8 is for the tag
         tag = ptr.new_struct(item_count, data_size, ptrs_size)
         builder.write_int64(pos, tag)
         pos += 8
-    else:
-        # alloc the list, no tag
-        pos = builder.alloc_list(pos, size_tag, item_count, body_length)
+        for item in lst:
+            struct_item_type.write_struct(builder, pos, item, data_size)
+            pos += item_length
+        return
     #
+    # alloc the list, no tag
+    pos = builder.alloc_list(pos, size_tag, item_count, body_length)
     for item in lst:
         item_type.write_item(builder, pos, item)
         pos += item_length
diff --git a/capnpy/segment/_copy_pointer.py b/capnpy/segment/_copy_pointer.py
index 9739110..e0b7587 100644
--- a/capnpy/segment/_copy_pointer.py
+++ b/capnpy/segment/_copy_pointer.py
@@ -124,8 +124,8 @@ def _copy_struct(src, p, src_pos, dst, dst_pos):
 ##@cython.returns(long)
 ##@cython.except_(-1)
 @cython.locals(src=BaseSegment, p=long, src_pos=long, dst=SegmentBuilder, dst_pos=long,
-               data_size=long, ptrs_size=long, ds=long)
-def _copy_struct_inline(src, p, src_pos, dst, dst_pos):
+               dst_ptrs_pos=long, data_size=long, ptrs_size=long, ds=long)
+def _copy_struct_inline(src, p, src_pos, dst, dst_pos, dst_ptrs_pos):
     # this does the same as _copy_struct, but instead of allocating space for
     # it, it fills an already-allocated space (useful e.g. for writing structs
     # into lists).
@@ -145,7 +145,7 @@ def _copy_struct_inline(src, p, src_pos, dst, dst_pos):
     ds = data_size*8
     check_bounds(src, ds, src_pos)
     dst.write_slice(dst_pos, src, src_pos, ds) # copy data section
-    _copy_many_ptrs(ptrs_size, src, src_pos+ds, dst, dst_pos+ds)
+    _copy_many_ptrs(ptrs_size, src, src_pos+ds, dst, dst_ptrs_pos)
 
 
 @cython.cfunc
diff --git a/capnpy/segment/builder.pxd b/capnpy/segment/builder.pxd
index aeb48bd..9d3fb12 100644
--- a/capnpy/segment/builder.pxd
+++ b/capnpy/segment/builder.pxd
@@ -42,5 +42,5 @@ cdef class SegmentBuilder(object):
                             Py_ssize_t src_pos)
     cpdef copy_from_struct(self, Py_ssize_t dst_pos, type structcls, Struct value)
     cpdef copy_inline_struct(self, Py_ssize_t dst_pos, BaseSegment src,
-                             long p, Py_ssize_t src_pos)
+                             long p, Py_ssize_t src_pos, Py_ssize_t dst_ptrs_pos)
     cpdef copy_from_list(self, Py_ssize_t pos, item_type, lst)
diff --git a/capnpy/segment/builder.py b/capnpy/segment/builder.py
index 968a0ed..d70ca0c 100644
--- a/capnpy/segment/builder.py
+++ b/capnpy/segment/builder.py
@@ -117,15 +117,16 @@ class SegmentBuilder(object):
     def copy_from_pointer(self, dst_pos, src, p, src_pos):
         return copy_pointer(src, p, src_pos, self, dst_pos)
 
-    def copy_inline_struct(self, dst_pos, src, p, src_pos):
+    def copy_inline_struct(self, dst_pos, src, p, src_pos, dst_ptrs_pos):
         """
         Similar to copy_from_pointer but:
           1. it assumes that p is a pointer to a struct
 
           2. it does NOT allocate a new struct in dst_pos: instead, it writes
-             the struct directly into dst_pos
+             the struct directly into dst_pos (data section) and dst_ptrs_pos
+             (pointers section)
         """
-        return _copy_struct_inline(src, p, src_pos, self, dst_pos)
+        return _copy_struct_inline(src, p, src_pos, self, dst_pos, dst_ptrs_pos)
 
     def copy_from_list(self, pos, item_type, lst):
         return copy_from_list(self, pos, item_type, lst)
diff --git a/capnpy/segment/builder.pyx b/capnpy/segment/builder.pyx
index 9d05030..665ea87 100644
--- a/capnpy/segment/builder.pyx
+++ b/capnpy/segment/builder.pyx
@@ -185,15 +185,16 @@ cdef class SegmentBuilder(object):
         return copy_pointer(src, p, src_pos, self, dst_pos)
 
     cpdef copy_inline_struct(self, Py_ssize_t dst_pos, BaseSegment src,
-                             long p, Py_ssize_t src_pos):
+                             long p, Py_ssize_t src_pos, Py_ssize_t dst_ptrs_pos):
         """
         Similar to copy_from_pointer but:
           1. it assumes that p is a pointer to a struct
 
           2. it does NOT allocate a new struct in dst_pos: instead, it writes
-             the struct directly into dst_pos
+             the struct directly into dst_pos (data section) and dst_ptrs_pos
+             (pointers section)
         """
-        return _copy_struct_inline(src, p, src_pos, self, dst_pos)
+        return _copy_struct_inline(src, p, src_pos, self, dst_pos, dst_ptrs_pos)
 
     cpdef copy_from_list(self, Py_ssize_t pos, item_type, lst):
         return copy_from_list(self, pos, item_type, lst)
-- 
2.43.0


From 3adef2b5cd4082d08dfed2f6e3176fd8a40899e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 05/55] fix: objects containing empty structs are compact

---
 capnpy/segment/endof.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capnpy/segment/endof.py b/capnpy/segment/endof.py
index 6494cb4..db7515c 100644
--- a/capnpy/segment/endof.py
+++ b/capnpy/segment/endof.py
@@ -48,7 +48,8 @@ def _endof_ptrs(seg, offset, ptrs_size, current_end):
         p_offset = offset + i*8
         i += 1
         p = seg.read_ptr(p_offset)
-        if not p:
+        if not p or p == ptr.new_struct(-1, 0, 0):
+            # null pointer, or empty struct: there is nothing to look at
             continue
         new_start = ptr.deref(p, p_offset)
         if new_start != current_end:
-- 
2.43.0


From ffa8eb08190a7c1025724428e4c9d3dfaf0c8bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:50 +0000
Subject: [PATCH 06/55] fix: the fast path of dumps no longer truncates lists
 with extra words

A composite list may declare more words than its items occupy; endof computed
the end of the blob from the items only, so the fast path cut the message short.
Such a blob is now not considered compact, and it is copied by the slow path.
---
 capnpy/list.py          | 5 ++++-
 capnpy/segment/endof.py | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/capnpy/list.py b/capnpy/list.py
index d54924e..9a09d29 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -74,7 +74,10 @@ class List(Blob):
         return self._item_type.read_item(self, i)
 
     def _get_end(self):
-        p = ptr.new_list(0, self._size_tag, self._item_count)
+        count = self._item_count
+        if self._size_tag == ptr.LIST_SIZE_COMPOSITE:
+            count = count * self._item_length // 8 # number of words
+        p = ptr.new_list(0, self._size_tag, count)
         return endof(self._seg, p, self._offset-8)
 
     def _get_slice(self):
diff --git a/capnpy/segment/endof.py b/capnpy/segment/endof.py
index db7515c..88beafa 100644
--- a/capnpy/segment/endof.py
+++ b/capnpy/segment/endof.py
@@ -29,6 +29,9 @@ def endof(seg, p, offset):
             count = ptr.offset(tag)
             data_size = ptr.struct_data_size(tag)
             ptrs_size = ptr.struct_ptrs_size(tag)
+            if ptr.list_item_count(p) != count*(data_size+ptrs_size):
+                # there are extra words between the items and what follows
+                return -1
             return _endof_list_composite(seg, p, offset,
                                          count, data_size, ptrs_size)
         elif item_size == ptr.LIST_SIZE_PTR:
-- 
2.43.0


From c2cdd81089903d2c7d560b098ab4ab785824f046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 07/55] fix: copying a composite list checks its item count and
 drops extra words

The number of items found in the tag word was trusted: if it was bigger than
what fits in the list, the copy read and wrote past the end of the buffers.
---
 capnpy/segment/_copy_pointer.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/capnpy/segment/_copy_pointer.py b/capnpy/segment/_copy_pointer.py
index e0b7587..3254f40 100644
--- a/capnpy/segment/_copy_pointer.py
+++ b/capnpy/segment/_copy_pointer.py
@@ -186,7 +186,7 @@ def _copy_list_ptr(src, p, src_pos, dst, dst_pos):
 ##@cython.returns(long)
 ##@cython.except_(-1)
 @cython.locals(src=BaseSegment, p=long, src_pos=long, dst=SegmentBuilder, dst_pos=long,
-               total_words=long, body_length=long,
+               total_words=long, body_length=long, content_words=long,
                tag=long, count=long, data_size=long, ptrs_size=long,
                i=long, item_length=long, ptrs_section_offset=long)
 def _copy_list_composite(src, p, src_pos, dst, dst_pos):
@@ -202,6 +202,15 @@ def _copy_list_composite(src, p, src_pos, dst, dst_pos):
     data_size = ptr.struct_data_size(tag)
     ptrs_size = ptr.struct_ptrs_size(tag)
     #
+    # the items must fit into the body. On the other hand, the body might
+    # contain more words than needed: in that case, don't copy them
+    content_words = count * (data_size+ptrs_size)
+    if count < 0 or content_words > total_words:
+        raise ValueError("Malformed list: %d items do not fit into %d words" %
+                         (count, total_words))
+    total_words = content_words
+    body_length = (total_words+1)*8
+    #
     # allocate the list and copy the whole body at once
     dst_pos = dst.alloc_list(dst_pos, ptr.LIST_SIZE_COMPOSITE, total_words, body_length)
     dst.write_slice(dst_pos, src, src_pos, body_length)
-- 
2.43.0


From e48a3be28d627a376ace62ac4827d49881d74225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 08/55] fix: headers with huge sizes do not overflow when
 loading a message

The sizes found in the header were stored in C ints: with a big enough segment
size the product wrapped around, and a truncated message was accepted.
---
 capnpy/buffered.pxd | 20 ++++++++++----------
 capnpy/filelike.pxd |  4 ++--
 capnpy/message.pxd  | 10 +++++-----
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/capnpy/buffered.pxd b/capnpy/buffered.pxd
index d960142..d7ddc2e 100644
--- a/capnpy/buffered.pxd
+++ b/capnpy/buffered.pxd
@@ -3,16 +3,16 @@ from capnpy.filelike cimport FileLike
 
 cdef class BufferedStream(FileLike):
     cdef readonly bytes buf
-    cdef readonly int i
+    cdef readonly long i
 
-    cdef _fillbuf(self, int size)
+    cdef _fillbuf(self, long size)
     cdef bytes _readall(self)
     cpdef bytes _readchunk(self)
 
-    @cython.locals(i=int, j=int)
-    cpdef bytes read(self, int size=*)
+    @cython.locals(i=long, j=long)
+    cpdef bytes read(self, long size=*)
 
-    @cython.locals(i=int, j=int)
+    @cython.locals(i=long, j=long)
     cpdef bytes readline(self)
 
 
@@ -25,12 +25,12 @@ cdef class BufferedSocket(BufferedStream):
 
 cdef class StringBuffer(FileLike):
     cdef readonly bytes s
-    cdef readonly int i
+    cdef readonly long i
 
-    @cython.locals(i=int, j=int)
-    cpdef bytes read(self, int size=*)
+    @cython.locals(i=long, j=long)
+    cpdef bytes read(self, long size=*)
 
-    @cython.locals(i=int, j=int)
+    @cython.locals(i=long, j=long)
     cpdef bytes readline(self)
 
-    cpdef int tell(self)
+    cpdef long tell(self)
diff --git a/capnpy/filelike.pxd b/capnpy/filelike.pxd
index d6598f6..e197a85 100644
--- a/capnpy/filelike.pxd
+++ b/capnpy/filelike.pxd
@@ -1,12 +1,12 @@
 cpdef FileLike as_filelike(object f)
 
 cdef class FileLike:
-    cpdef bytes read(self, int size=*)
+    cpdef bytes read(self, long size=*)
     cpdef bytes readline(self)
 
 cdef class FileLikeAdapter(FileLike):
     cdef object _read
     cdef object _readline
 
-    cpdef bytes read(self, int size=*)
+    cpdef bytes read(self, long size=*)
     cpdef bytes readline(self)
diff --git a/capnpy/message.pxd b/capnpy/message.pxd
index 39965af..f309517 100644
--- a/capnpy/message.pxd
+++ b/capnpy/message.pxd
@@ -14,15 +14,15 @@ cpdef loads(bytes buf, object payload_type)
 #cpdef load_all(FileLike f, object payload_type)
 
 
-@cython.locals(buf = bytes, n=int, length=int)
+@cython.locals(buf = bytes, n=long, length=long)
 cpdef Struct _load_message(FileLike f)
 
-@cython.locals(buf=bytes, message_size=int, message_lenght=int)
+@cython.locals(buf=bytes, message_size=long, message_lenght=long)
 cpdef _load_buffer_single_segment(FileLike f)
 
-@cython.locals(fmt=bytes, size=int, buf=bytes, bytes_read=int,
-                padding=int, message_lenght=int, offset=int, size=int)
-cpdef _load_buffer_multiple_segments(FileLike f, int n)
+@cython.locals(fmt=bytes, size=long, buf=bytes, bytes_read=long,
+                padding=long, message_lenght=long, offset=long)
+cpdef _load_buffer_multiple_segments(FileLike f, long n)
 
 @cython.locals(builder=SegmentBuilder, segment_size=long, segment_count=long,
                p=long, start=long, end=long)
-- 
2.43.0


From b4ccc6df1cc3ad0a999d76f0b89c96706c617a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 09/55] fix: FileLikeAdapter.readline returns the line

---
 capnpy/filelike.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capnpy/filelike.py b/capnpy/filelike.py
index 831ae11..0af2a40 100644
--- a/capnpy/filelike.py
+++ b/capnpy/filelike.py
@@ -53,4 +53,4 @@ class FileLikeAdapter(FileLike):
         return self._read(size)
 
     def readline(self):
-        return self._readline
+        return self._readline()
-- 
2.43.0


From ecdf47659eef75e0e3464a37a7d0f63d36fcaafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 10/55] fix: the position of the in-memory reader never exceeds
 the data

StringBuffer.tell() was wrong after a read past the end; moreover, any negative
size means unlimited, and huge sizes do not overflow.
---
 capnpy/buffered.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/capnpy/buffered.py b/capnpy/buffered.py
index b7212cd..08cfb39 100644
--- a/capnpy/buffered.py
+++ b/capnpy/buffered.py
@@ -42,17 +42,17 @@ class BufferedStream(FileLike):
         return b''.join(parts)
 
     def read(self, size=-1):
-        if size == -1:
+        if size < 0:
             return self._readall()
         i = self.i
-        j = i + size
-        if len(self.buf) < j:
+        if len(self.buf) - i < size:
             # not enough data in the buffer, let's refill it
             self._fillbuf(size)
-            self.i = size
+            self.i = min(size, len(self.buf))
             return self.buf[:size]
         #
         # data already in the buffer, fast path
+        j = i + size
         self.i = j
         return self.buf[i:j]
 
@@ -136,7 +136,8 @@ class StringBuffer(FileLike):
 
     def read(self, size=-1):
         i = self.i
-        if size == -1:
+        if size < 0 or size > len(self.s) - i:
+            # read until the end
             self.i = len(self.s)
             return self.s[i:]
         else:
-- 
2.43.0


From 2b255dd743396cd72ea5558c9545ff2d20462ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 11/55] fix: copying checks for negative offsets

---
 capnpy/segment/_copy_pointer.h  | 3 ++-
 capnpy/segment/_copy_pointer.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/capnpy/segment/_copy_pointer.h b/capnpy/segment/_copy_pointer.h
index 1bc687c..42b14df 100644
--- a/capnpy/segment/_copy_pointer.h
+++ b/capnpy/segment/_copy_pointer.h
@@ -7,7 +7,8 @@ static PyObject* RAISE_OUT_OF_BOUNDS(Py_ssize_t, Py_ssize_t);
     (Py_INCREF(Py_None), Py_None);                                      \
     {                                                                   \
         /* _PyString_GET_SIZE is included from _util.h */               \
-        if ((offset)+(size) > (_PyString_GET_SIZE(src->buf))) {         \
+        if ((offset) < 0 || (size) < 0 ||                               \
+            (offset)+(size) > (_PyString_GET_SIZE(src->buf))) {         \
             /* raise and return error */                                \
             return RAISE_OUT_OF_BOUNDS(size, offset);                   \
         }                                                               \
diff --git a/capnpy/segment/_copy_pointer.py b/capnpy/segment/_copy_pointer.py
index 3254f40..a54c890 100644
--- a/capnpy/segment/_copy_pointer.py
+++ b/capnpy/segment/_copy_pointer.py
@@ -38,7 +38,7 @@ if not cython.compiled:
     # it. However, we can trick Cython by calling it _check_bounds and
     # 'rename' it later by modifying globals(). Bah.
     def _check_bounds(src, size, offset):
-        if offset+size > len(src.buf):
+        if offset < 0 or size < 0 or offset+size > len(src.buf):
             raise IndexError('Offset out of bounds: %d' % (offset+size))
 
     def _read_int64_fast(src, offset):
-- 
2.43.0


From d51112b206f6f63b430b3115ea9ad863ed2e572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 12/55] fix: strhash never reads past the end of the buffer

---
 capnpy/_hash.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/capnpy/_hash.pyx b/capnpy/_hash.pyx
index 0ba3521..e554f97 100644
--- a/capnpy/_hash.pyx
+++ b/capnpy/_hash.pyx
@@ -23,9 +23,12 @@ cdef int PY3 = PY_MAJOR_VERSION == 3
 
 cpdef long strhash(bytes a, long start, long size):
     cdef long maxlen = len(a)
+    if start < 0 or size < 0:
+        # malformed text or data: follow the rules for slicing
+        return hash(a[start:start+size])
     if start >= maxlen or size == 0:
         return 0
-    if size > maxlen:
+    if size > maxlen-start:
         size = maxlen-start
 
     cdef const unsigned char* p = a
-- 
2.43.0


From 2ba1599aacdfa8fa9fca331c4171342360dfd9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 13/55] fix: copying malformed messages does not overflow the C
 stack

---
 capnpy/segment/_copy_pointer.py  | 41 +++++++++++++++++++++-----------
 capnpy/segment/_copy_pointer.pyx |  4 ++++
 capnpy/segment/endof.pxd         |  4 ++++
 capnpy/segment/endof.py          | 16 ++++++++++++-
 4 files changed, 50 insertions(+), 15 deletions(-)

diff --git a/capnpy/segment/_copy_pointer.py b/capnpy/segment/_copy_pointer.py
index a54c890..5a88c8f 100644
--- a/capnpy/segment/_copy_pointer.py
+++ b/capnpy/segment/_copy_pointer.py
@@ -44,7 +44,15 @@ if not cython.compiled:
     def _read_int64_fast(src, offset):
         return src.read_int64(offset)
 
+    def _enter_recursive_call(where):
+        pass # the interpreter already checks the depth of the recursion
+
+    def _leave_recursive_call():
+        pass
+
     globals()['check_bounds'] = _check_bounds
+    globals()['enter_recursive_call'] = _enter_recursive_call
+    globals()['leave_recursive_call'] = _leave_recursive_call
     globals()['read_int64_fast'] = _read_int64_fast
 
 
@@ -70,20 +78,25 @@ def copy_pointer(src, p, src_pos, dst, dst_pos):
     Copy from: BaseSegment src, pointer p living at the src_pos offset
            to: SegmentBuilder dst at position dst_pos
     """
-    kind = ptr.kind(p)
-    if kind == ptr.STRUCT:
-        return _copy_struct(src, p, src_pos, dst, dst_pos)
-    elif kind == ptr.LIST:
-        item_size = ptr.list_size_tag(p)
-        if item_size == ptr.LIST_SIZE_COMPOSITE:
-            return _copy_list_composite(src, p, src_pos, dst, dst_pos)
-        elif item_size == ptr.LIST_SIZE_PTR:
-            return _copy_list_ptr(src, p, src_pos, dst, dst_pos)
-        else:
-            return _copy_list_primitive(src, p, src_pos, dst, dst_pos)
-    elif kind == ptr.FAR:
-        src_pos, p = src.read_far_ptr(src_pos)
-        return copy_pointer(src, p, src_pos, dst, dst_pos)
+    # malformed messages can contain cycles
+    enter_recursive_call(b" while copying a capnpy object")
+    try:
+        kind = ptr.kind(p)
+        if kind == ptr.STRUCT:
+            return _copy_struct(src, p, src_pos, dst, dst_pos)
+        elif kind == ptr.LIST:
+            item_size = ptr.list_size_tag(p)
+            if item_size == ptr.LIST_SIZE_COMPOSITE:
+                return _copy_list_composite(src, p, src_pos, dst, dst_pos)
+            elif item_size == ptr.LIST_SIZE_PTR:
+                return _copy_list_ptr(src, p, src_pos, dst, dst_pos)
+            else:
+                return _copy_list_primitive(src, p, src_pos, dst, dst_pos)
+        elif kind == ptr.FAR:
+            src_pos, p = src.read_far_ptr(src_pos)
+            return copy_pointer(src, p, src_pos, dst, dst_pos)
+    finally:
+        leave_recursive_call()
 
 
 @cython.cfunc
diff --git a/capnpy/segment/_copy_pointer.pyx b/capnpy/segment/_copy_pointer.pyx
index d8e03bf..cb7166b 100644
--- a/capnpy/segment/_copy_pointer.pyx
+++ b/capnpy/segment/_copy_pointer.pyx
@@ -33,3 +33,7 @@ cdef object raise_out_of_bounds(Py_ssize_t size, Py_ssize_t offset):
     raise IndexError('Offset out of bounds: %d' % (offset+size))
 
 # ======================
+
+cdef extern from "Python.h":
+    int enter_recursive_call "Py_EnterRecursiveCall" (char *where) except -1
+    void leave_recursive_call "Py_LeaveRecursiveCall" ()
diff --git a/capnpy/segment/endof.pxd b/capnpy/segment/endof.pxd
index 547b944..6739147 100644
--- a/capnpy/segment/endof.pxd
+++ b/capnpy/segment/endof.pxd
@@ -2,6 +2,10 @@ import cython
 from capnpy cimport ptr
 from capnpy.segment.segment cimport Segment
 
+cdef extern from "Python.h":
+    int enter_recursive_call "Py_EnterRecursiveCall" (char *where) except -1
+    void leave_recursive_call "Py_LeaveRecursiveCall" ()
+
 cpdef long endof(Segment seg, long p, long offset) except -2
 
 @cython.locals(i=long, p_offset=long, p=long)
diff --git a/capnpy/segment/endof.py b/capnpy/segment/endof.py
index 88beafa..307ae17 100644
--- a/capnpy/segment/endof.py
+++ b/capnpy/segment/endof.py
@@ -1,5 +1,15 @@
+from pypytools import fakecython
+with fakecython:
+    import cython
+
 from capnpy import ptr
 
+if not cython.compiled:
+    # the interpreter already checks the depth of the recursion. See the
+    # comment in _copy_pointer.py about globals()
+    globals()['enter_recursive_call'] = lambda where: None
+    globals()['leave_recursive_call'] = lambda: None
+
 def endof(seg, p, offset):
     """
     Check whether the given object is compact, and in that case compute its
@@ -57,7 +67,11 @@ def _endof_ptrs(seg, offset, ptrs_size, current_end):
         new_start = ptr.deref(p, p_offset)
         if new_start != current_end:
             return -1
-        current_end = endof(seg, p, p_offset)
+        enter_recursive_call(b" while computing the end of a capnpy object")
+        try:
+            current_end = endof(seg, p, p_offset)
+        finally:
+            leave_recursive_call()
     #
     return current_end
 
-- 
2.43.0


From 90015cf6ecb93b0659db6e44a6ddc874cad8447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 14/55] fix: copying a list checks the bounds before allocating
 memory for it

---
 capnpy/segment/_copy_pointer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capnpy/segment/_copy_pointer.py b/capnpy/segment/_copy_pointer.py
index 5a88c8f..393684f 100644
--- a/capnpy/segment/_copy_pointer.py
+++ b/capnpy/segment/_copy_pointer.py
@@ -176,8 +176,8 @@ def _copy_list_primitive(src, p, src_pos, dst, dst_pos):
     else:
         body_length = count * ptr.list_item_length(size_tag)
     #
-    dst_pos = dst.alloc_list(dst_pos, size_tag, count, body_length)
     check_bounds(src, body_length, src_pos)
+    dst_pos = dst.alloc_list(dst_pos, size_tag, count, body_length)
     dst.write_slice(dst_pos, src, src_pos, body_length)
 
 
@@ -190,8 +190,8 @@ def _copy_list_ptr(src, p, src_pos, dst, dst_pos):
     src_pos = ptr.deref(p, src_pos)
     count = ptr.list_item_count(p)
     body_length = count*8
-    dst_pos = dst.alloc_list(dst_pos, ptr.LIST_SIZE_PTR, count, body_length)
     check_bounds(src, body_length, src_pos)
+    dst_pos = dst.alloc_list(dst_pos, ptr.LIST_SIZE_PTR, count, body_length)
     _copy_many_ptrs(count, src, src_pos, dst, dst_pos)
 
 
-- 
2.43.0


From 5f7cfa01269405addf7374ab9c2b63092eb72260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:20 +0000
Subject: [PATCH 15/55] fix: failures to grow the buffer of the builder are
 reported

---
 capnpy/segment/builder.pxd | 2 +-
 capnpy/segment/builder.pyx | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/capnpy/segment/builder.pxd b/capnpy/segment/builder.pxd
index 9d3fb12..a01b003 100644
--- a/capnpy/segment/builder.pxd
+++ b/capnpy/segment/builder.pxd
@@ -14,7 +14,7 @@ cdef class SegmentBuilder(object):
                                      # cbuf; the next allocation will start at
                                      # this position
 
-    cdef void _resize(self, Py_ssize_t minlen)
+    cdef int _resize(self, Py_ssize_t minlen) except -1
     cpdef Py_ssize_t get_length(self)
     cpdef as_string(self)
 
diff --git a/capnpy/segment/builder.pyx b/capnpy/segment/builder.pyx
index 665ea87..2b67238 100644
--- a/capnpy/segment/builder.pyx
+++ b/capnpy/segment/builder.pyx
@@ -8,7 +8,7 @@ from capnpy.struct_ cimport Struct
 from capnpy.list cimport List, ItemType, StructItemType
 
 cdef extern from "Python.h":
-    int PyByteArray_Resize(object o, Py_ssize_t len)
+    int PyByteArray_Resize(object o, Py_ssize_t len) except -1
     char* PyByteArray_AS_STRING(object o)
 
 cdef extern from "_util.h":
@@ -29,7 +29,7 @@ cdef class SegmentBuilder(object):
         self.cbuf = PyByteArray_AS_STRING(self.buf)
         self.end = 0
 
-    cdef void _resize(self, Py_ssize_t minlen):
+    cdef int _resize(self, Py_ssize_t minlen) except -1:
         # exponential growth of the buffer. By using this formula, we grow
         # faster at the beginning (where the constant plays a major role) and
         # slower when the buffer it's already big (where length >> 1 plays a
@@ -47,6 +47,7 @@ cdef class SegmentBuilder(object):
         ##     print '        %s --> %s' % (curlen, newlen)
         memset(self.cbuf + curlen, 0, newlen - curlen)
         self.length = newlen
+        return 0
 
     cpdef Py_ssize_t get_length(self):
         return self.end
-- 
2.43.0


From c4b271f774d8997b1bd9f21c40cd1cce07cbe942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:46 +0000
Subject: [PATCH 16/55] fix: enums and union tags are unsigned

---
 capnpy/list.py            | 2 +-
 capnpy/schema_extended.py | 4 ++--
 capnpy/struct_.py         | 3 ++-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/capnpy/list.py b/capnpy/list.py
index 9a09d29..7998549 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -264,7 +264,7 @@ class PrimitiveItemType(ItemType):
 class EnumItemType(PrimitiveItemType):
 
     def __init__(self, enumcls):
-        PrimitiveItemType.__init__(self, Types.int16)
+        PrimitiveItemType.__init__(self, Types.uint16)
         self.enumcls = enumcls
 
     def get_type(self):
diff --git a/capnpy/schema_extended.py b/capnpy/schema_extended.py
index f553541..15a286e 100644
--- a/capnpy/schema_extended.py
+++ b/capnpy/schema_extended.py
@@ -140,7 +140,7 @@ class Field_slot:
         elif self.type.is_pointer():
             return 'q'
         elif self.type.is_enum():
-            return 'h'
+            return 'H'
 
     def get_typename(self):
         if self.type.is_primitive():
@@ -148,7 +148,7 @@ class Field_slot:
         elif self.type.is_pointer():
             return 'int64'
         elif self.type.is_enum():
-            return 'int16'
+            return 'uint16'
 
     def get_size(self):
         # XXX: even more hackish, we need a better way
diff --git a/capnpy/struct_.py b/capnpy/struct_.py
index 82c2d27..70029b3 100644
--- a/capnpy/struct_.py
+++ b/capnpy/struct_.py
@@ -195,10 +195,11 @@ class Struct(Blob):
         return self._seg.read_primitive(self._data_offset+offset, ifmt)
 
     def _read_int16(self, offset):
+        # this is used only for enums and union tags, which are unsigned
         if offset >= self._data_size*8:
             # reading bytes beyond _data_size is equivalent to read 0
             return 0
-        return self._seg.read_int16(self._data_offset+offset)
+        return self._seg.read_uint16(self._data_offset+offset)
 
     def _read_bit(self, offset, bitmask):
         val = self._read_primitive(offset, Types.uint8.ifmt)
-- 
2.43.0


From c3bc6e13ad4f901d253b782085b0fe918a2c2c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:48 +0000
Subject: [PATCH 17/55] fix: printing and hashing malformed messages does not
 overflow the C stack

---
 capnpy/compiler/request.py |  2 ++
 capnpy/compiler/struct_.py |  6 +++---
 capnpy/struct_.py          |  4 ++--
 capnpy/util.py             | 10 ++++++++++
 4 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/capnpy/compiler/request.py b/capnpy/compiler/request.py
index 2167290..8748be1 100644
--- a/capnpy/compiler/request.py
+++ b/capnpy/compiler/request.py
@@ -74,6 +74,8 @@ class RequestedFile:
         m.w("from capnpy.util import extend_module_maybe as _extend_module_maybe")
         m.w("from capnpy.util import check_version as _check_version")
         m.w("from capnpy.util import encode_maybe as _encode_maybe")
+        m.w("from capnpy.util import nested_shortrepr as _nested_shortrepr")
+        m.w("from capnpy.util import nested_hash as _nested_hash")
         #
         if m.pyx:
             m.w("from capnpy cimport _hash")
diff --git a/capnpy/compiler/struct_.py b/capnpy/compiler/struct_.py
index 0e16973..9ce644a 100644
--- a/capnpy/compiler/struct_.py
+++ b/capnpy/compiler/struct_.py
@@ -264,7 +264,7 @@ class Node__Struct:
         elif f.is_data():
             return ns.format('_data_repr(self.get_{pyname}())')
         elif f.is_struct() or f.is_list():
-            return ns.format('self.get_{pyname}().shortrepr()')
+            return ns.format('_nested_shortrepr(self.get_{pyname}())')
         elif f.is_group():
             return ns.format('self.{pyname}.shortrepr()')
         else:
@@ -338,8 +338,8 @@ class Node__Struct:
         """)
 
     def _fasthash_for_field(self, f):
-        if not f.is_slot():
-            return 'hash'
+        if not f.is_slot() or f.is_struct():
+            return '_nested_hash'
         t = f.slot.type
         w = t.which()
         if schema.Type.__tag__.int8 <= w <= schema.Type.__tag__.uint32:
diff --git a/capnpy/struct_.py b/capnpy/struct_.py
index 70029b3..55052d0 100644
--- a/capnpy/struct_.py
+++ b/capnpy/struct_.py
@@ -9,7 +9,7 @@ from capnpy.list import List
 from capnpy.segment.segment import Segment, MultiSegment
 from capnpy.segment.endof import endof
 from capnpy.segment.builder import SegmentBuilder
-from capnpy.util import magic_setattr, decode_maybe
+from capnpy.util import magic_setattr, decode_maybe, nested_hash
 
 class Undefined(object):
     def __repr__(self):
@@ -316,7 +316,7 @@ class Struct(Blob):
                         "Use the $Py.key annotation to enable it")
 
     def __hash__(self):
-        return hash(self._key())
+        return nested_hash(self._key())
 
     def _equals(self, other):
         if isinstance(other, Struct) or isinstance(other, tuple):
diff --git a/capnpy/util.py b/capnpy/util.py
index 9969389..4dfb5ff 100644
--- a/capnpy/util.py
+++ b/capnpy/util.py
@@ -85,6 +85,16 @@ def check_version(modname, version):
                'Please recompile.').format(v1=version, v2=capnpy.__version__)
         raise ImportError(msg)
 
+# The following two functions are used to recurse into nested objects: since
+# they are pure Python, the interpreter checks the depth of the recursion even
+# when the callers are compiled by Cython. This is needed because malformed
+# messages can contain cycles.
+def nested_shortrepr(obj):
+    return obj.shortrepr()
+
+def nested_hash(obj):
+    return hash(obj)
+
 def text_bytes_repr(s):
     return text_unicode_repr(decode_maybe(s))
 
-- 
2.43.0


From 3d171db8657b05aa44991c1434271d69f33c595e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:48 +0000
Subject: [PATCH 18/55] fix: lists with a negative number of items are refused

---
 capnpy/list.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/capnpy/list.py b/capnpy/list.py
index 7998549..37d5457 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -43,6 +43,8 @@ class List(Blob):
             tag = self._seg.read_ptr(self._offset)
             self._tag = tag
             self._item_count = ptr.offset(tag)
+            if self._item_count < 0:
+                raise ValueError("Malformed list: negative number of items")
             self._item_length = (ptr.struct_data_size(tag)+ptr.struct_ptrs_size(tag))*8
             self._item_offset = 8
         else:
-- 
2.43.0


From 439db72785b4af3935e4edbbaa24b1a740269fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 19/55] fix: non-empty lists of bools are refused before
 allocating memory

---
 capnpy/segment/_copy_list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/capnpy/segment/_copy_list.py b/capnpy/segment/_copy_list.py
index d1b97da..4b9590f 100644
--- a/capnpy/segment/_copy_list.py
+++ b/capnpy/segment/_copy_list.py
@@ -27,6 +27,9 @@ def copy_from_list(builder, pos, item_type, lst):
     item_length = item_type.item_length
     size_tag = item_type.size_tag
     item_count = len(lst)
+    if item_length < 0 and item_count > 0:
+        # the items are smaller than a byte
+        raise NotImplementedError("Cannot write a list of bools")
     body_length = item_length * item_count
     if size_tag == ptr.LIST_SIZE_COMPOSITE:
         # alloc the list and write the tag
-- 
2.43.0


From 8a4b673608cec2f6eabe2c0959b262c7d6ce16f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:16 +0000
Subject: [PATCH 20/55] fix: the hash of a null unicode text is the hash of
 None

---
 capnpy/struct_.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/capnpy/struct_.py b/capnpy/struct_.py
index 55052d0..7662609 100644
--- a/capnpy/struct_.py
+++ b/capnpy/struct_.py
@@ -256,7 +256,9 @@ class Struct(Blob):
     def _hash_text_unicode(self, offset, default_=hash(None)):
         # XXX: this is not a "fast hash" at all, it creates an unicode and the
         # computes the hash on it
-        u = self._read_text_unicode(offset, default_=b'')
+        u = self._read_text_unicode(offset)
+        if u is None:
+            return default_
         return hash(u)
 
     def _read_data(self, offset, default_=None, additional_size=0):
-- 
2.43.0


From 47e3f1cd8bd399677f8260e6aab958385d5d85c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:54 +0000
Subject: [PATCH 21/55] fix: bounds checks of capnpy.packing do not overflow
 and refuse negative offsets

---
 capnpy/packing.py  | 2 ++
 capnpy/packing.pyx | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/capnpy/packing.py b/capnpy/packing.py
index c15d0fb..c9f1721 100644
--- a/capnpy/packing.py
+++ b/capnpy/packing.py
@@ -47,6 +47,8 @@ def pack_int64(value):
 
 def pack_into(ifmt, buf, offset, value):
     fmt = '<' + mychr(ifmt)
+    if offset < 0:
+        raise IndexError('Offset out of bounds: %d' % offset)
     try:
         struct.pack_into(fmt, buf, offset, value)
     except struct.error as e:
diff --git a/capnpy/packing.pyx b/capnpy/packing.pyx
index 30ba213..ce1d55c 100644
--- a/capnpy/packing.pyx
+++ b/capnpy/packing.pyx
@@ -35,7 +35,7 @@ cdef char* as_cbuf(object buf, Py_ssize_t* length, bint rw=0) except NULL:
         else:
             raise TypeError("Expected str or bytearray")
 
-cdef checkbound(int size, Py_ssize_t length, int offset):
+cdef checkbound(Py_ssize_t size, Py_ssize_t length, Py_ssize_t offset):
     if offset < 0 or offset + size > length:
         raise IndexError('Offset out of bounds: %d' % offset)
 
-- 
2.43.0


From d5081b5e0fc2ebef4ed44f945be9efde5054d8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:54 +0000
Subject: [PATCH 22/55] fix: ptr.new_generic accepts negative offsets

---
 capnpy/ptr.h  | 2 +-
 capnpy/ptr.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/capnpy/ptr.h b/capnpy/ptr.h
index 4218476..775dc62 100644
--- a/capnpy/ptr.h
+++ b/capnpy/ptr.h
@@ -29,7 +29,7 @@ enum _PTR_LIST_SIZE {
 #define CAST_AS_SIGNED(x, bits) (((long)x) << (LONGBITS-bits) >> (LONGBITS-bits))
 
 // generic pointer
-#define PTR_NEW_GENERIC(kind, offset, extra) ((extra)<<32 | (offset)<<2 | (kind))
+#define PTR_NEW_GENERIC(kind, offset, extra) ((extra)<<32 | ((offset)<<2 & 0xfffffffc) | (kind))
 #define PTR_KIND(ptr) ((ptr) & 0x3)
 #define PTR_OFFSET(ptr) (CAST_AS_SIGNED((ptr)>>2 & 0x3fffffff, 30))
 #define PTR_EXTRA(ptr) ((ptr)>>32)
diff --git a/capnpy/ptr.py b/capnpy/ptr.py
index a0d9145..3b5e4c2 100644
--- a/capnpy/ptr.py
+++ b/capnpy/ptr.py
@@ -40,7 +40,7 @@ LIST_SIZE_COMPOSITE = 7
 def new_generic(kind, offset, extra):
     p = 0
     p |= extra << 32
-    p |= offset << 2
+    p |= (offset << 2 & 0xfffffffc)
     p |= kind
     return p
 
-- 
2.43.0


From 53ed2055cb3cf670377c367c27d762b84ad92beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:37 +0000
Subject: [PATCH 23/55] fix: bounds checks of the compiled segment do not
 overflow

---
 capnpy/segment/base.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capnpy/segment/base.pyx b/capnpy/segment/base.pyx
index 5e6e531..7078bae 100644
--- a/capnpy/segment/base.pyx
+++ b/capnpy/segment/base.pyx
@@ -14,7 +14,7 @@ cdef extern from "_util.h":
 cpdef uint32_t unpack_uint32(bytes buf, Py_ssize_t offset) except? 0xffffffff:
     cdef const char *cbuf = _PyString_AS_STRING(buf)
     cdef Py_ssize_t buflen = _PyString_GET_SIZE(buf)
-    if offset < 0 or offset + 4 > buflen:
+    if offset < 0 or offset > buflen - 4:
         raise IndexError('Offset out of bounds: %d' % (offset+4))
     return (<uint32_t*>(cbuf+offset))[0]
 
@@ -41,7 +41,7 @@ cdef class BaseSegment(object):
         # consider adding a read_int64_fast or similar method, which does
         # *not* do the check.
         cdef Py_ssize_t buflen = _PyString_GET_SIZE(self.buf)
-        if offset < 0 or offset + size > buflen:
+        if offset < 0 or offset > buflen - size:
             raise IndexError('Offset out of bounds: %d' % (offset+size))
 
     @cython.final
-- 
2.43.0


From 6ccec18651c133d10fc276c73bfb3161fdbed925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:31 +0000
Subject: [PATCH 24/55] fix: the fast hash of a union member checks the union
 tag, and a text is hashed once

---
 capnpy/compiler/struct_.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/capnpy/compiler/struct_.py b/capnpy/compiler/struct_.py
index 9ce644a..6f9d995 100644
--- a/capnpy/compiler/struct_.py
+++ b/capnpy/compiler/struct_.py
@@ -313,10 +313,14 @@ class Node__Struct:
             for ns.i, fname in enumerate(fieldnames):
                 f = fields[fname]
                 ns.fname = m.py_field_name(f)
-                if f.is_text_bytes(m):
+                if f.is_part_of_union():
+                    # reading the attribute checks the tag
+                    ns.hash = self._fasthash_for_field(f)
+                    ns.w('h[{i}] = {hash}(self.{fname})')
+                elif f.is_text_bytes(m):
                     ns.offset = f.slot.offset * f.slot.get_size()
                     ns.w('h[{i}] = self._hash_text_bytes({offset})')
-                if f.is_text_unicode(m):
+                elif f.is_text_unicode(m):
                     ns.offset = f.slot.offset * f.slot.get_size()
                     ns.w('h[{i}] = self._hash_text_unicode({offset})')
                 else:
-- 
2.43.0


From 02e2809d8bfc5b1747a42efeaaebd50908a1783c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:31 +0000
Subject: [PATCH 25/55] fix: lists are not hashable in pure Python mode either

---
 capnpy/blob.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/capnpy/blob.py b/capnpy/blob.py
index b9c9fab..0006837 100644
--- a/capnpy/blob.py
+++ b/capnpy/blob.py
@@ -112,5 +112,7 @@ try:
     Blob.__le__ = Blob.__dict__['_cmp_error']
     Blob.__gt__ = Blob.__dict__['_cmp_error']
     Blob.__ge__ = Blob.__dict__['_cmp_error']
+    # a class which defines __eq__ is not hashable, unless it says how
+    Blob.__hash__ = None
 except TypeError:
     pass
-- 
2.43.0


From a5f8311247c6e98876e5aac0374e5d15e81ed1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:27 +0000
Subject: [PATCH 26/55] fix: compare lists by their items instead of by their
 memory

---
 capnpy/list.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/capnpy/list.py b/capnpy/list.py
index 37d5457..7a5e601 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -82,13 +82,6 @@ class List(Blob):
         p = ptr.new_list(0, self._size_tag, count)
         return endof(self._seg, p, self._offset-8)
 
-    def _get_slice(self):
-        # XXX: investigate whether it is faster to user memoryview for
-        # comparing the memory without doing a full copy
-        start = self._offset
-        end = self._get_end()
-        return self._seg.buf[start:end]
-
     def _equals(self, other):
         if not self._item_type.can_compare():
             raise TypeError("Cannot compare lists of structs.")
@@ -96,9 +89,11 @@ class List(Blob):
             return list(self) == other
         if self.__class__ is not other.__class__:
             return False
+        # we cannot compare the memory directly: the same items can be encoded
+        # in many different ways (e.g. because of pointers and padding)
         return (self._item_count == other._item_count and
                 self._item_type.get_type() == other._item_type.get_type() and
-                self._get_slice() == other._get_slice())
+                list(self) == list(other))
 
     def shortrepr(self):
         parts = [self._item_type.item_repr(item) for item in self]
@@ -378,7 +373,7 @@ class ListItemType(ItemType):
         self.size_tag = ptr.LIST_SIZE_PTR
 
     def get_type(self):
-        return ('list', self.inner_item_type)
+        return ('list', self.inner_item_type.get_type())
 
     def read_item(self, lst, i):
         offset = lst._offset + (i*8)
-- 
2.43.0


From 1fc59106ca02b7de531a2d2448bc3c3524de275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:04 +0000
Subject: [PATCH 27/55] fix: str and repr of enums which have a member called
 "name"; negative values are unknown

---
 capnpy/enum.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/capnpy/enum.py b/capnpy/enum.py
index 894ceb0..86a8da1 100644
--- a/capnpy/enum.py
+++ b/capnpy/enum.py
@@ -6,16 +6,21 @@ class BaseEnum(int):
 
     @property
     def name(self):
-        try:
-            return self.__members__[self]
-        except IndexError:
-            return 'unknown<%d>' % self
+        return _enum_name(self)
 
+    # note that we cannot use self.name here: if the enum has a member called
+    # "name", it hides the property
     def __repr__(self):
-        return '<%s.%s: %d>' % (self.__class__.__name__, self.name, self)
+        return '<%s.%s: %d>' % (self.__class__.__name__, _enum_name(self), self)
 
     def __str__(self):
-        return self.name
+        return _enum_name(self)
+
+def _enum_name(e):
+    members = e.__members__
+    if 0 <= e < len(members):
+        return members[e]
+    return 'unknown<%d>' % e
 
 def fill_enum(cls):
     for i, member in enumerate(cls.__members__):
-- 
2.43.0


From 89c9e2681e3e2518d9c87216c8899a6bdc78f6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:45 +0000
Subject: [PATCH 28/55] fix: load schemas which contain an empty enum

---
 capnpy/compiler/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capnpy/compiler/module.py b/capnpy/compiler/module.py
index 60bf342..bfe9d3f 100644
--- a/capnpy/compiler/module.py
+++ b/capnpy/compiler/module.py
@@ -176,7 +176,7 @@ class ModuleGenerator(object):
         ns = self.code.new_scope()
         ns.name = compile_name
         ns.capnpy_id = capnpy_id
-        ns.members = "(%s,)" % (', '.join(items))
+        ns.members = "(%s)" % ''.join([item + ', ' for item in items])
         ns.prebuilt = [ns.format('{name}({i})', i=i)
                        for i in range(len(items))]
         ns.prebuilt = ', '.join(ns.prebuilt)
-- 
2.43.0


From 07660fb600a04766a83c8ab9bd6301dac7481048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:52 +0000
Subject: [PATCH 29/55] fix: constants of type enum, unicode text, inf and nan

---
 capnpy/compiler/node.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/capnpy/compiler/node.py b/capnpy/compiler/node.py
index 65e3638..1ef24d4 100644
--- a/capnpy/compiler/node.py
+++ b/capnpy/compiler/node.py
@@ -3,6 +3,7 @@ from capnpy.list import VoidItemType
 from capnpy.schema import (Node, Node__Enum, Node__Const, Node__Annotation,
                            Enumerant)
 from capnpy import annotate
+from capnpy.annotate import TextType
 from capnpy.compiler.util import as_identifier
 
 # The implementation of each node is divided in three parts:
@@ -172,12 +173,23 @@ class Node__Const:
             item_type = self.const.type.list.elementType.list_item_type(m, options)
             ns.constdecl = self._declare_list_const(val, item_type)
         else:
-            # for primitive types
-            val = self.const.value.as_pyobj()
-            ns.constdecl = repr(val)
+            ns.constdecl = self._declare_simple_const(m, options)
         #
         ns.w('{varname} = {constdecl}')
 
+    def _declare_simple_const(self, m, options):
+        # for enums, primitive types, text and data
+        t = self.const.type
+        val = self.const.value.as_pyobj()
+        if t.is_enum():
+            return '%s(%d)' % (t.compile_name(m), val)
+        elif t.is_float32() or t.is_float64():
+            # repr() of inf and nan is not a valid expression
+            return 'float(%r)' % repr(val)
+        elif t.is_text() and options.text_type == TextType.unicode:
+            return '%r.decode("utf-8")' % val
+        return repr(val)
+
     def _declare_list_const(self, val, item_type):
         segment = '_reflection_data.request._seg'
         s = '_List.from_buffer({seg}, {offset}, {size_tag}, {item_count}, {item_type})'
-- 
2.43.0


From 0317df1426b14451b159a28c01c404e9832f0d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:24 +0000
Subject: [PATCH 30/55] fix: get_x and has_x of union members check the union
 tag

---
 capnpy/compiler/field.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/capnpy/compiler/field.py b/capnpy/compiler/field.py
index e561511..c3eec60 100644
--- a/capnpy/compiler/field.py
+++ b/capnpy/compiler/field.py
@@ -111,6 +111,7 @@ class Field__Slot:
         """)
         ns.ww("""
             {cpdef} get_{name}(self):
+                {ensure_union}
                 return self._read_text_bytes({offset}, default_=b"")
         """)
         ns.w()
@@ -124,6 +125,7 @@ class Field__Slot:
         """)
         ns.ww("""
             {cpdef} get_{name}(self):
+                {ensure_union}
                 return self._read_text_unicode({offset}, default_=b"")
         """)
         ns.w()
@@ -137,6 +139,7 @@ class Field__Slot:
         """)
         ns.ww("""
             {cpdef} get_{name}(self):
+                {ensure_union}
                 return self._read_data({offset}, default_=b"")
         """)
         ns.w()
@@ -210,8 +213,14 @@ class Field__Slot:
         self._emit_has_method(ns)
 
     def _emit_has_method(self, ns):
+        if self.is_part_of_union():
+            # the pointer belongs to another member of the union
+            ns.check_member = 'if not self.is_%s(): return False' % ns.name
+        else:
+            ns.check_member = '# no union check'
         ns.ww("""
             {cpdef} has_{name}(self):
+                {check_member}
                 ptr = self._read_fast_ptr({offset})
                 return ptr != 0
         """)
-- 
2.43.0


From a5f18527bc099fcf9fe2789ac75f26e185831f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:34 +0000
Subject: [PATCH 31/55] fix: new_x() does not force the homonymous member of a
 nested union

---
 capnpy/compiler/fieldtree.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/capnpy/compiler/fieldtree.py b/capnpy/compiler/fieldtree.py
index 2a430b5..873aaa1 100644
--- a/capnpy/compiler/fieldtree.py
+++ b/capnpy/compiler/fieldtree.py
@@ -95,18 +95,20 @@ class Node(AbstractNode):
         self.varname = m.py_field_name(f)
         if prefix:
             self.varname = '%s_%s' % (prefix, self.varname)
-        self._init_children(m, field_force_default)
+        self._init_children(m)
         #
         # self.default is a *string* containing a Python repr of the default
         # value
         self.default = self._get_default(m)
 
-    def _init_children(self, m, field_force_default):
+    def _init_children(self, m):
         self.children = []
         if self.f.is_group():
             group = self.f.group.get_node(m)
+            # only the field itself is forced: a field of the group might be
+            # equal to it, because fields are compared by name and position
             self._add_children(m, group.get_struct_fields(), prefix=self.varname,
-                               field_force_default=field_force_default)
+                               field_force_default=None)
             if group.struct.is_union():
                 self.union = Union(self.varname, group.struct.discriminantOffset*2)
 
-- 
2.43.0


From 0b531089c7017e799ac677a6cde2d24bae3c53d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:42 +0000
Subject: [PATCH 32/55] fix: nullable fields work when convertCase is off

---
 capnpy/compiler/field.py    |  7 +++++--
 capnpy/compiler/structor.py | 12 +++++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/capnpy/compiler/field.py b/capnpy/compiler/field.py
index c3eec60..2a3269c 100644
--- a/capnpy/compiler/field.py
+++ b/capnpy/compiler/field.py
@@ -238,11 +238,14 @@ class Field__Group:
         if nullable:
             nullable.check(m)
             ns.privname = '_' + name
+            f_is_null, f_value = groupnode.get_struct_fields()
+            ns.is_null = m.py_field_name(f_is_null)
+            ns.value = m.py_field_name(f_value)
             m.def_property(ns, name, """
                 g = self.{privname}
-                if g.is_null:
+                if g.{is_null}:
                     return None
-                return g.value
+                return g.{value}
             """)
             name = ns.privname
         #
diff --git a/capnpy/compiler/structor.py b/capnpy/compiler/structor.py
index fc84d4f..18d7d8f 100644
--- a/capnpy/compiler/structor.py
+++ b/capnpy/compiler/structor.py
@@ -131,19 +131,21 @@ class Structor(object):
         #         x_is_null = 0
         #         x_value = x
         #
-        value_node = node.children[1]
+        is_null_node, value_node = node.children
         assert value_node.f.name == b'value' # sanity check
         ns = self.m.code.new_scope()
         ns.fname = node.varname
+        ns.fname_is_null = is_null_node.varname
+        ns.fname_value = value_node.varname
         ns.value_default = value_node.default
         ns.ww(
         """
             if {fname} is None:
-                {fname}_is_null = 1
-                {fname}_value = {value_default}
+                {fname_is_null} = 1
+                {fname_value} = {value_default}
             else:
-                {fname}_is_null = 0
-                {fname}_value = {fname}
+                {fname_is_null} = 0
+                {fname_value} = {fname}
         """)
         for child in node.children:
             self.handle_node(child)
-- 
2.43.0


From 477e8adc9f74fec26e8b548d0499c034b3e098a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:23 +0000
Subject: [PATCH 33/55] fix: explicit defaults of float fields, and absent
 floats are floats

---
 capnpy/compiler/field.py     | 14 ++++++++++++++
 capnpy/compiler/fieldtree.py |  3 +++
 capnpy/compiler/request.py   |  4 ++++
 capnpy/compiler/structor.py  | 13 +++++++++++++
 capnpy/schema_extended.py    | 11 +++++++++++
 capnpy/struct_.py            |  2 ++
 capnpy/util.py               | 13 +++++++++++++
 7 files changed, 60 insertions(+)

diff --git a/capnpy/compiler/field.py b/capnpy/compiler/field.py
index 2a3269c..9ba15f9 100644
--- a/capnpy/compiler/field.py
+++ b/capnpy/compiler/field.py
@@ -70,6 +70,8 @@ class Field__Slot:
         ns.typename = '_Types.%s' % self.slot.type.which()
         ns.default_ = self.slot.defaultValue.as_pyobj()
         ns.ifmt = "ord(%r)" % self.slot.get_fmt()
+        if self.slot.hadExplicitDefault and self.slot.type.is_float():
+            return self._emit_float_with_default(m, ns, name)
         m.def_property(ns, name, """
             {ensure_union}
             value = self._read_primitive({offset}, {ifmt})
@@ -78,6 +80,18 @@ class Field__Slot:
             return value
         """)
 
+    def _emit_float_with_default(self, m, ns, name):
+        # what is XORed with the default is the binary representation
+        ns.typename = self.slot.get_typename()
+        bits_type = Types.uint32 if self.slot.type.is_float32() else Types.uint64
+        ns.ifmt = "ord(%r)" % bits_type.fmt
+        ns.default_ = self.slot.get_float_default_bits()
+        m.def_property(ns, name, """
+            {ensure_union}
+            value = self._read_primitive({offset}, {ifmt})
+            return _{typename}_from_bits(value ^ {default_})
+        """)
+
     def _emit_bool(self, m, ns, name):
         byteoffset, bitoffset = divmod(self.slot.offset, 8)
         ns.offset = byteoffset
diff --git a/capnpy/compiler/fieldtree.py b/capnpy/compiler/fieldtree.py
index 873aaa1..7df96e7 100644
--- a/capnpy/compiler/fieldtree.py
+++ b/capnpy/compiler/fieldtree.py
@@ -118,6 +118,9 @@ class Node(AbstractNode):
             return '_undefined'
         elif f.is_slot():
             default_val = f.slot.defaultValue.as_pyobj()
+            if f.slot.type.is_float():
+                # repr() of inf and nan is not a valid expression
+                return 'float(%r)' % repr(default_val)
             return str(default_val)
         elif f.is_nullable(m):
             ann = f.is_nullable(m)
diff --git a/capnpy/compiler/request.py b/capnpy/compiler/request.py
index 8748be1..1c8a067 100644
--- a/capnpy/compiler/request.py
+++ b/capnpy/compiler/request.py
@@ -76,6 +76,10 @@ class RequestedFile:
         m.w("from capnpy.util import encode_maybe as _encode_maybe")
         m.w("from capnpy.util import nested_shortrepr as _nested_shortrepr")
         m.w("from capnpy.util import nested_hash as _nested_hash")
+        m.w("from capnpy.util import float32_from_bits as _float32_from_bits")
+        m.w("from capnpy.util import float64_from_bits as _float64_from_bits")
+        m.w("from capnpy.util import float32_to_bits as _float32_to_bits")
+        m.w("from capnpy.util import float64_to_bits as _float64_to_bits")
         #
         if m.pyx:
             m.w("from capnpy cimport _hash")
diff --git a/capnpy/compiler/structor.py b/capnpy/compiler/structor.py
index 18d7d8f..691c723 100644
--- a/capnpy/compiler/structor.py
+++ b/capnpy/compiler/structor.py
@@ -189,6 +189,8 @@ class Structor(object):
     def handle_primitive(self, node):
         ns = self.m.code.new_scope()
         ns.arg = node.varname
+        if node.f.slot.hadExplicitDefault and node.f.slot.type.is_float():
+            return self.handle_float_with_default(node)
         if node.f.slot.hadExplicitDefault:
             ns.default_ = node.f.slot.defaultValue.as_pyobj()
             ns.w('{arg} ^= {default_}')
@@ -197,6 +199,17 @@ class Structor(object):
         ns.offset = self.slot_offset(node.f)
         ns.w('builder.write_{type}(pos + {offset}, {arg})')
 
+    def handle_float_with_default(self, node):
+        # what is XORed with the default is the binary representation
+        ns = self.m.code.new_scope()
+        ns.arg = node.varname
+        ns.default_ = node.f.slot.get_float_default_bits()
+        ns.type = node.f.slot.get_typename()
+        ns.bits = node.f.slot.get_size() * 8
+        ns.offset = self.slot_offset(node.f)
+        ns.w('builder.write_uint{bits}(pos + {offset}, '
+             '_{type}_to_bits({arg}) ^ {default_})')
+
     def handle_bool(self, node):
         ns = self.m.code.new_scope()
         ns.arg = node.varname
diff --git a/capnpy/schema_extended.py b/capnpy/schema_extended.py
index 15a286e..5d0205a 100644
--- a/capnpy/schema_extended.py
+++ b/capnpy/schema_extended.py
@@ -1,6 +1,7 @@
 from capnpy.type import Types as _Types
 from capnpy import annotate
 from capnpy.annotate import TextType
+from capnpy.util import float32_to_bits, float64_to_bits
 
 @Type.__extend__
 class Type:
@@ -18,6 +19,9 @@ class Type:
         # specially everywhere
         return Type.__tag__.int8 <= self.which() <= Type.__tag__.float64
 
+    def is_float(self):
+        return self.is_float32() or self.is_float64()
+
     def is_builtin(self):
         return Type.__tag__.void <= self.which() <= Type.__tag__.data
 
@@ -150,6 +154,13 @@ class Field_slot:
         elif self.type.is_enum():
             return 'uint16'
 
+    def get_float_default_bits(self):
+        # the binary representation of the default value of a float
+        if self.type.is_float32():
+            return float32_to_bits(self.defaultValue.float32)
+        else:
+            return float64_to_bits(self.defaultValue.float64)
+
     def get_size(self):
         # XXX: even more hackish, we need a better way
         if self.type.is_void():
diff --git a/capnpy/struct_.py b/capnpy/struct_.py
index 7662609..a090390 100644
--- a/capnpy/struct_.py
+++ b/capnpy/struct_.py
@@ -191,6 +191,8 @@ class Struct(Blob):
     def _read_primitive(self, offset, ifmt):
         if offset >= self._data_size*8:
             # reading bytes beyond _data_size is equivalent to read 0
+            if ifmt == Types.float64.ifmt or ifmt == Types.float32.ifmt:
+                return 0.0
             return 0
         return self._seg.read_primitive(self._data_offset+offset, ifmt)
 
diff --git a/capnpy/util.py b/capnpy/util.py
index 4dfb5ff..d2bbf23 100644
--- a/capnpy/util.py
+++ b/capnpy/util.py
@@ -1,3 +1,4 @@
+import struct
 import sys
 import py
 import six
@@ -32,6 +33,18 @@ def decode_maybe(s):
         return None
     return s.decode('utf-8')
 
+def float32_to_bits(value):
+    return struct.unpack('=I', struct.pack('=f', value))[0]
+
+def float64_to_bits(value):
+    return struct.unpack('=Q', struct.pack('=d', value))[0]
+
+def float32_from_bits(bits):
+    return struct.unpack('=f', struct.pack('=I', bits))[0]
+
+def float64_from_bits(bits):
+    return struct.unpack('=d', struct.pack('=Q', bits))[0]
+
 def extend(cls):
     def decorator(new_class):
         for key, value in new_class.__dict__.items():
-- 
2.43.0


From b581d4ce22c7592a5820e5c9c1e57565674f368c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:09 +0000
Subject: [PATCH 34/55] fix: bool arguments which are not bools corrupted the
 neighbour fields, or were inverted

---
 capnpy/compiler/structor.py | 6 +++---
 capnpy/segment/builder.py   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/capnpy/compiler/structor.py b/capnpy/compiler/structor.py
index 691c723..c27fd48 100644
--- a/capnpy/compiler/structor.py
+++ b/capnpy/compiler/structor.py
@@ -214,7 +214,7 @@ class Structor(object):
         ns = self.m.code.new_scope()
         ns.arg = node.varname
         ns.byteoffset, ns.bitoffset = divmod(node.f.slot.offset, 8)
-        if node.f.slot.hadExplicitDefault:
-            ns.default_ = node.f.slot.defaultValue.as_pyobj()
-            ns.w('{arg} ^= {default_}')
+        if (node.f.slot.hadExplicitDefault and
+            node.f.slot.defaultValue.as_pyobj()):
+            ns.w('{arg} = not {arg}')
         ns.w('builder.write_bool({byteoffset}, {bitoffset}, {arg})')
diff --git a/capnpy/segment/builder.py b/capnpy/segment/builder.py
index d70ca0c..778d508 100644
--- a/capnpy/segment/builder.py
+++ b/capnpy/segment/builder.py
@@ -54,7 +54,7 @@ class SegmentBuilder(object):
 
     def write_bool(self, byteoffset, bitoffset, value):
         current = struct.unpack_from('B', self.buf, byteoffset)[0]
-        current |= (value << bitoffset)
+        current |= (bool(value) << bitoffset)
         struct.pack_into('B', self.buf, byteoffset, current)
 
     def write_slice(self, i, src, start, n):
-- 
2.43.0


From e4686f9a6a3c0910f4a51bd23f28b602816c2635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:09 +0000
Subject: [PATCH 35/55] fix: refuse non-bytes text and data in pure Python mode

---
 capnpy/segment/builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/capnpy/segment/builder.py b/capnpy/segment/builder.py
index 778d508..4b65bb8 100644
--- a/capnpy/segment/builder.py
+++ b/capnpy/segment/builder.py
@@ -94,6 +94,8 @@ class SegmentBuilder(object):
         if s is None:
             self.write_int64(pos, 0)
             return -1
+        if not isinstance(s, (binary_type, bytearray)):
+            raise TypeError("Expected bytes, got %s" % s.__class__.__name__)
         n = len(s)
         nn = n + trailing_zero
         result = self.alloc_list(pos, ptr.LIST_SIZE_8, nn, nn)
-- 
2.43.0


From b82f75d232c188eb9b7a1a82e1777270f554c078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:09 +0000
Subject: [PATCH 36/55] fix: refuse lists which do not fit in a list pointer

---
 capnpy/segment/builder.py  | 2 ++
 capnpy/segment/builder.pyx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/capnpy/segment/builder.py b/capnpy/segment/builder.py
index 4b65bb8..fa2752e 100644
--- a/capnpy/segment/builder.py
+++ b/capnpy/segment/builder.py
@@ -83,6 +83,8 @@ class SegmentBuilder(object):
         Allocate a new list of the given size, and write the resulting pointer
         at position i. Return the newly allocated position.
         """
+        if item_count >> 29:
+            raise ValueError("Too many items for a list: %d" % item_count)
         body_length = ptr.round_up_to_word(body_length)
         result = self.allocate(body_length)
         offet = result - (pos+8)
diff --git a/capnpy/segment/builder.pyx b/capnpy/segment/builder.pyx
index 2b67238..be56c19 100644
--- a/capnpy/segment/builder.pyx
+++ b/capnpy/segment/builder.pyx
@@ -149,6 +149,8 @@ cdef class SegmentBuilder(object):
         Allocate a new list of the given size, and write the resulting pointer
         at position i. Return the newly allocated position.
         """
+        if item_count >> 29:
+            raise ValueError("Too many items for a list: %d" % item_count)
         body_length = round_to_word(body_length)
         cdef Py_ssize_t result = self.allocate(body_length)
         cdef long offet = result - (pos+8)
-- 
2.43.0


From 2e5339d0f123efd12c29c04ae23af5162326b281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:09 +0000
Subject: [PATCH 37/55] fix: do not silently truncate floats passed to integer
 fields

---
 capnpy/compiler/request.py  |  4 ++++
 capnpy/compiler/structor.py |  4 +++-
 capnpy/segment/builder.pyx  | 17 +++++++++--------
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/capnpy/compiler/request.py b/capnpy/compiler/request.py
index 1c8a067..8bd3187 100644
--- a/capnpy/compiler/request.py
+++ b/capnpy/compiler/request.py
@@ -81,6 +81,10 @@ class RequestedFile:
         m.w("from capnpy.util import float32_to_bits as _float32_to_bits")
         m.w("from capnpy.util import float64_to_bits as _float64_to_bits")
         #
+        if m.pyx:
+            m.w("from cpython.number cimport PyNumber_Index as _index")
+        else:
+            m.w("from operator import index as _index")
         if m.pyx:
             m.w("from capnpy cimport _hash")
             all_types = [t.name for t in Types.__all__ if t is not Types.text]
diff --git a/capnpy/compiler/structor.py b/capnpy/compiler/structor.py
index c27fd48..44b92de 100644
--- a/capnpy/compiler/structor.py
+++ b/capnpy/compiler/structor.py
@@ -194,7 +194,9 @@ class Structor(object):
         if node.f.slot.hadExplicitDefault:
             ns.default_ = node.f.slot.defaultValue.as_pyobj()
             ns.w('{arg} ^= {default_}')
-        #
+        elif not node.f.slot.type.is_float():
+            # without this, Cython would silently truncate e.g. 1.5
+            ns.w('{arg} = _index({arg})')
         ns.type = node.f.slot.get_typename()
         ns.offset = self.slot_offset(node.f)
         ns.w('builder.write_{type}(pos + {offset}, {arg})')
diff --git a/capnpy/segment/builder.pyx b/capnpy/segment/builder.pyx
index be56c19..edda88c 100644
--- a/capnpy/segment/builder.pyx
+++ b/capnpy/segment/builder.pyx
@@ -1,4 +1,5 @@
 cimport cython
+from cpython.number cimport PyNumber_Index
 from libc.stdint cimport (int8_t, uint8_t, int16_t, uint16_t,
                           uint32_t, int32_t, int64_t, uint64_t, INT64_MAX)
 from libc.string cimport memcpy, memset
@@ -57,25 +58,25 @@ cdef class SegmentBuilder(object):
 
     cpdef object write_generic(self, char ifmt, Py_ssize_t i, object value):
         if ifmt == 'q':
-            self.write_int64(i, value)
+            self.write_int64(i, PyNumber_Index(value))
         elif ifmt == 'Q':
-            self.write_uint64(i, value)
+            self.write_uint64(i, PyNumber_Index(value))
         elif ifmt == 'd':
             self.write_float64(i, value)
         elif ifmt == 'f':
             self.write_float32(i, value)
         elif ifmt == 'i':
-            self.write_int32(i, value)
+            self.write_int32(i, PyNumber_Index(value))
         elif ifmt == 'I':
-            self.write_uint32(i, value)
+            self.write_uint32(i, PyNumber_Index(value))
         elif ifmt == 'h':
-            self.write_int16(i, value)
+            self.write_int16(i, PyNumber_Index(value))
         elif ifmt == 'H':
-            self.write_uint16(i, value)
+            self.write_uint16(i, PyNumber_Index(value))
         elif ifmt == 'b':
-            self.write_int8(i, value)
+            self.write_int8(i, PyNumber_Index(value))
         elif ifmt == 'B':
-            self.write_uint8(i, value)
+            self.write_uint8(i, PyNumber_Index(value))
         else:
             raise ValueError('unknown fmt %s' % chr(ifmt))
 
-- 
2.43.0


From 5fc1b11c9e3048e3d263374590e0e13af176cb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:36 +0000
Subject: [PATCH 38/55] fix: versionCheck annotation of the file was ignored

---
 capnpy/compiler/request.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capnpy/compiler/request.py b/capnpy/compiler/request.py
index 8bd3187..af326ea 100644
--- a/capnpy/compiler/request.py
+++ b/capnpy/compiler/request.py
@@ -100,7 +100,7 @@ class RequestedFile:
         m.w('__capnpy_id__ = {id:#x}', id=self.id)
         m.w('__capnpy_version__ = {version!r}', version=capnpy.__version__)
         m.w('__capnproto_version__ = {version!r}', version=m.capnproto_version)
-        if m.version_check:
+        if m.options(filenode).version_check:
             m.w('_check_version(__name__, __capnpy_version__)')
         else:
             m.w('# schema compiled with --no-version-check, skipping the call to _check_version')
-- 
2.43.0


From b3d09b8e593ffa8875e444bf03a34202284430b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:58 +0000
Subject: [PATCH 39/55] fix: names of group members clashing with the ones of
 other fields

---
 capnpy/compiler/fieldtree.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/capnpy/compiler/fieldtree.py b/capnpy/compiler/fieldtree.py
index 7df96e7..ac4f9f5 100644
--- a/capnpy/compiler/fieldtree.py
+++ b/capnpy/compiler/fieldtree.py
@@ -51,11 +51,24 @@ class FieldTree(AbstractNode):
             fields = struct_node.get_struct_fields() or []
         #
         if self.struct and self.struct.is_union():
-            self.union = Union('anonymous', self.struct.discriminantOffset*2)
+            self.union = Union('_anonymous', self.struct.discriminantOffset*2)
         #
         self.children = []
         prefix = None
         self._add_children(m, fields, prefix, field_force_default)
+        self._rename_clashes()
+
+    def _rename_clashes(self):
+        # the varname of e.g. the field "x" of the group "foo" is the same as
+        # the one of the field "fooX"
+        seen = set([node.varname for node in self.children])
+        for child in self.children:
+            for node in child.allnodes():
+                while node.varname in seen:
+                    node.varname += '_'
+                seen.add(node.varname)
+                if node.union:
+                    node.union = node.union._replace(varname=node.varname)
 
     def __repr__(self):
         return '<FieldTree>'
-- 
2.43.0


From 16bd6d66a627e5609873dee2d62dd5792c1554d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:58 +0000
Subject: [PATCH 40/55] fix: fields whose name is used by the generated code,
 and keyword-named groups and constants

---
 capnpy/compiler/field.py     |  7 ++++---
 capnpy/compiler/fieldtree.py |  2 +-
 capnpy/compiler/module.py    | 22 +++++++++++++++++++++-
 capnpy/compiler/node.py      |  2 +-
 capnpy/compiler/request.py   |  7 +++++++
 capnpy/compiler/struct_.py   | 15 ++++++++-------
 capnpy/compiler/structor.py  | 30 +++++++++++++++---------------
 7 files changed, 57 insertions(+), 28 deletions(-)

diff --git a/capnpy/compiler/field.py b/capnpy/compiler/field.py
index 9ba15f9..d289397 100644
--- a/capnpy/compiler/field.py
+++ b/capnpy/compiler/field.py
@@ -251,7 +251,7 @@ class Field__Group:
         nullable = self.is_nullable(m)
         if nullable:
             nullable.check(m)
-            ns.privname = '_' + name
+            ns.privname = m.private_name(name)
             f_is_null, f_value = groupnode.get_struct_fields()
             ns.is_null = m.py_field_name(f_is_null)
             ns.value = m.py_field_name(f_value)
@@ -291,9 +291,10 @@ class Field__Group:
         #
         ns.argnames = m.code.args(argnames)
         ns.params = m.code.params(params)
-        ns.capitalname = ns.name.capitalize()
+        ns.capitalname = m._mangle_name(ns.name.capitalize())
+        ns.staticmethod = m.decorator('staticmethod')
         ns.ww("""
-            @staticmethod
+            {staticmethod}
             def {capitalname}({params}):
                 return {argnames},
         """)
diff --git a/capnpy/compiler/fieldtree.py b/capnpy/compiler/fieldtree.py
index ac4f9f5..ba77c29 100644
--- a/capnpy/compiler/fieldtree.py
+++ b/capnpy/compiler/fieldtree.py
@@ -133,7 +133,7 @@ class Node(AbstractNode):
             default_val = f.slot.defaultValue.as_pyobj()
             if f.slot.type.is_float():
                 # repr() of inf and nan is not a valid expression
-                return 'float(%r)' % repr(default_val)
+                return '_float(%r)' % repr(default_val)
             return str(default_val)
         elif f.is_nullable(m):
             ann = f.is_nullable(m)
diff --git a/capnpy/compiler/module.py b/capnpy/compiler/module.py
index bfe9d3f..cb6bdf8 100644
--- a/capnpy/compiler/module.py
+++ b/capnpy/compiler/module.py
@@ -10,6 +10,7 @@ from capnpy.compiler.util import as_identifier
 from capnpy.convert_case import from_camel_case
 from capnpy import schema
 from capnpy import annotate
+from capnpy.struct_ import Struct
 from capnpy.segment.segment import Segment, MultiSegment
 
 # the following imports have side-effects, and augment the schema.* classes
@@ -21,6 +22,11 @@ import capnpy.compiler.field
 import capnpy.compiler.enum
 import capnpy.compiler.misc
 
+# private names which are used by the generated classes
+RESERVED_NAMES = set(dir(Struct)) | set([
+    '_seg', '_data_offset', '_ptrs_offset', '_data_size', '_ptrs_size', '_key',
+    '_undefined', '_float', '_property', '_staticmethod', '_classmethod'])
+
 class ModuleGenerator(object):
 
     def __init__(self, request, pyx, standalone, default_options, capnproto_version):
@@ -51,6 +57,10 @@ class ModuleGenerator(object):
     def options(self, node_or_field):
         return self._node_options[node_or_field.id]
 
+    def decorator(self, name):
+        # see RequestedFile.emit
+        return '@' + name if self.pyx else '@_' + name
+
     def compute_all_options(self):
         for f in self.request.requestedFiles:
             filenode = self.allnodes[f.id]
@@ -169,6 +179,16 @@ class ModuleGenerator(object):
             return name + '_'
         return name
 
+    def private_name(self, name):
+        """
+        The name of the attribute which contains the underlying group of a
+        nullable field
+        """
+        name = '_' + name
+        if name in RESERVED_NAMES:
+            name += '_'
+        return name
+
     def declare_enum(self, compile_name, name, capnpy_id, items):
         # this method cannot go on Node__Enum because it's also called by
         # Node__Struct (for __tag__)
@@ -220,7 +240,7 @@ class ModuleGenerator(object):
                 with ns.block('def __get__(self):'):
                     ns.ww(src)
         else:
-            ns.w('@property')
+            ns.w('@_property')
             with ns.block('def {name}(self):', name=name):
                 ns.ww(src)
         ns.w()
diff --git a/capnpy/compiler/node.py b/capnpy/compiler/node.py
index 1ef24d4..5c54c64 100644
--- a/capnpy/compiler/node.py
+++ b/capnpy/compiler/node.py
@@ -148,7 +148,7 @@ class Node__Const:
     def emit_reference_as_child(self, m):
         options = m.options(self)
         ns = m.code.new_scope()
-        ns.varname = self.shortname(m)
+        ns.varname = m._mangle_name(self.shortname(m))
         if self.const.type.is_struct():
             struct_type = m.allnodes[self.const.type.struct.typeId]
             clsname = struct_type.compile_name(m)
diff --git a/capnpy/compiler/request.py b/capnpy/compiler/request.py
index af326ea..e0d6fef 100644
--- a/capnpy/compiler/request.py
+++ b/capnpy/compiler/request.py
@@ -81,6 +81,13 @@ class RequestedFile:
         m.w("from capnpy.util import float32_to_bits as _float32_to_bits")
         m.w("from capnpy.util import float64_to_bits as _float64_to_bits")
         #
+        # inside the classes, the names of the builtins might be shadowed by
+        # the ones of the fields
+        m.w("_float = float")
+        if not m.pyx:
+            m.w("_property = property")
+            m.w("_staticmethod = staticmethod")
+            m.w("_classmethod = classmethod")
         if m.pyx:
             m.w("from cpython.number cimport PyNumber_Index as _index")
         else:
diff --git a/capnpy/compiler/struct_.py b/capnpy/compiler/struct_.py
index 6f9d995..e30432f 100644
--- a/capnpy/compiler/struct_.py
+++ b/capnpy/compiler/struct_.py
@@ -160,11 +160,12 @@ class Node__Struct:
         ctor = Structor(m, self, self.struct.fields)
         ctor.emit()
         ns.w()
-        with ns.def_('__init__', ['self'] + ctor.params):
+        # the leading underscores avoid clashes with the names of the fields
+        with ns.def_('__init__', ['_self'] + ctor.params):
             newfunc = '{clsname}.__new'.format(clsname=self.compile_name(m))
             call = m.code.call(newfunc, ctor.argnames)
             ns.w('_buf = {call}', call=call)
-            ns.w('self._init_from_buffer(_buf, 0, {data_size}, {ptrs_size})')
+            ns.w('_self._init_from_buffer(_buf, 0, {data_size}, {ptrs_size})')
         ns.w()
 
     def _emit_ctors_union(self, m, ns):
@@ -194,12 +195,12 @@ class Node__Struct:
             if f not in fields:
                 argnames.append((m.py_field_name(f), '_undefined'))
         #
-        ns.w('@classmethod')
-        with ns.def_(name, ['cls'] + params):
+        ns.w(m.decorator('classmethod'))
+        with ns.def_(name, ['_cls'] + params):
             newfunc = '{clsname}.__new'.format(clsname=self.compile_name(m))
             call = m.code.call(newfunc, argnames)
-            ns.w('buf = {call}', call=call)
-            ns.w('return cls.from_buffer(buf, 0, {data_size}, {ptrs_size})')
+            ns.w('_buf = {call}', call=call)
+            ns.w('return _cls.from_buffer(_buf, 0, {data_size}, {ptrs_size})')
         ns.w()
 
     def _emit_repr(self, m):
@@ -220,7 +221,7 @@ class Node__Struct:
                     # value, while obj._x returns the underlying capnproto
                     # group
                     assert f.is_group()
-                    ns.pyname = '_' + ns.pyname
+                    ns.pyname = m.private_name(ns.pyname)
                 #
                 ns.fieldrepr = self._shortrepr_for_field(m, ns, f)
                 ns.append = ns.format('parts.append("{capname} = %s" % {fieldrepr})')
diff --git a/capnpy/compiler/structor.py b/capnpy/compiler/structor.py
index 44b92de..0fe796f 100644
--- a/capnpy/compiler/structor.py
+++ b/capnpy/compiler/structor.py
@@ -47,18 +47,18 @@ class Structor(object):
         if len(argnames) != len(set(argnames)):
             raise ValueError("Duplicate field name(s): %s" % argnames)
         #
-        code.w('@staticmethod')
+        code.w(self.m.decorator('staticmethod'))
         with code.cdef_('__new', self.params) as ns:
             ns.length = (self.data_size + self.ptrs_size)*8
-            ns.cdef_var('_SegmentBuilder', 'builder')
-            ns.cdef_var('long', 'pos')
-            ns.w('builder = _SegmentBuilder()')
-            ns.w('pos = builder.allocate({length})')
+            ns.cdef_var('_SegmentBuilder', '_builder')
+            ns.cdef_var('long', '_pos')
+            ns.w('_builder = _SegmentBuilder()')
+            ns.w('_pos = _builder.allocate({length})')
             for union in self.fieldtree.all_unions():
                 ns.w('{union}__curtag = None', union=union.varname)
             for node in self.fieldtree.children:
                 self.handle_node(node)
-            ns.w('return builder.as_string()')
+            ns.w('return _builder.as_string()')
 
     def handle_node(self, node):
         if node.f.is_part_of_union():
@@ -71,7 +71,7 @@ class Structor(object):
             ns.ifmt  = 'ord(%r)' % Types.int16.fmt
             with ns.block('if {varname} is not _undefined:'):
                 ns.w('{union}__curtag = _check_tag({union}__curtag, {tagname!r})')
-                ns.w('builder.write_int16({offset}, {tagval})')
+                ns.w('_builder.write_int16({offset}, {tagval})')
                 self._handle_node(node)
         else:
             self._handle_node(node)
@@ -151,17 +151,17 @@ class Structor(object):
             self.handle_node(child)
 
     def handle_text_bytes(self, node):
-        self.m.code.w('builder.alloc_text(pos + {offset}, {arg})',
+        self.m.code.w('_builder.alloc_text(_pos + {offset}, {arg})',
                       arg=node.varname, offset=self.slot_offset(node.f))
 
     def handle_text_unicode(self, node):
         ns = self.m.code.new_scope()
         ns.arg = node.varname
         ns.offset = self.slot_offset(node.f)
-        ns.w('builder.alloc_text(pos + {offset}, _encode_maybe({arg}))')
+        ns.w('_builder.alloc_text(_pos + {offset}, _encode_maybe({arg}))')
 
     def handle_data(self, node):
-        self.m.code.w('builder.alloc_data(pos + {offset}, {arg})',
+        self.m.code.w('_builder.alloc_data(_pos + {offset}, {arg})',
                       arg=node.varname, offset=self.slot_offset(node.f))
 
     def handle_struct(self, node):
@@ -175,7 +175,7 @@ class Structor(object):
         ns.fname = node.varname
         ns.offset = self.slot_offset(node.f)
         ns.structname = node.f.slot.type.runtime_name(self.m)
-        ns.w('builder.copy_from_struct(pos + {offset}, {structname}, {fname})')
+        ns.w('_builder.copy_from_struct(_pos + {offset}, {structname}, {fname})')
 
     def handle_list(self, node):
         options = self.m.options(node.f)
@@ -184,7 +184,7 @@ class Structor(object):
         ns.offset = self.slot_offset(node.f)
         t = node.f.slot.type.list.elementType
         ns.list_item_type = t.list_item_type(self.m, options)
-        ns.w('builder.copy_from_list(pos + {offset}, {list_item_type}, {fname})')
+        ns.w('_builder.copy_from_list(_pos + {offset}, {list_item_type}, {fname})')
 
     def handle_primitive(self, node):
         ns = self.m.code.new_scope()
@@ -199,7 +199,7 @@ class Structor(object):
             ns.w('{arg} = _index({arg})')
         ns.type = node.f.slot.get_typename()
         ns.offset = self.slot_offset(node.f)
-        ns.w('builder.write_{type}(pos + {offset}, {arg})')
+        ns.w('_builder.write_{type}(_pos + {offset}, {arg})')
 
     def handle_float_with_default(self, node):
         # what is XORed with the default is the binary representation
@@ -209,7 +209,7 @@ class Structor(object):
         ns.type = node.f.slot.get_typename()
         ns.bits = node.f.slot.get_size() * 8
         ns.offset = self.slot_offset(node.f)
-        ns.w('builder.write_uint{bits}(pos + {offset}, '
+        ns.w('_builder.write_uint{bits}(_pos + {offset}, '
              '_{type}_to_bits({arg}) ^ {default_})')
 
     def handle_bool(self, node):
@@ -219,4 +219,4 @@ class Structor(object):
         if (node.f.slot.hadExplicitDefault and
             node.f.slot.defaultValue.as_pyobj()):
             ns.w('{arg} = not {arg}')
-        ns.w('builder.write_bool({byteoffset}, {bitoffset}, {arg})')
+        ns.w('_builder.write_bool({byteoffset}, {bitoffset}, {arg})')
-- 
2.43.0


From 50512899fa143b899e2fd18e4892b957515c1f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:15 +0000
Subject: [PATCH 41/55] fix: importing two files with the same base name

---
 capnpy/compiler/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capnpy/compiler/module.py b/capnpy/compiler/module.py
index cb6bdf8..5350b5d 100644
--- a/capnpy/compiler/module.py
+++ b/capnpy/compiler/module.py
@@ -140,7 +140,7 @@ class ModuleGenerator(object):
         name = '_%s_capnp' % name
         if name in self.importnames.values():
             # avoid name clashes
-            name = '%s_%s' % (name, len(self.filenames))
+            name = '%s_%s' % (name, len(self.importnames))
         self.importnames[fname] = name
         return name
 
-- 
2.43.0


From 1690155c5e2c531c4b78d1adf8cf1d437684d555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:15 +0000
Subject: [PATCH 42/55] fix: importing a file with the same base name as the
 importer in pyx mode

---
 capnpy/compiler/compiler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/capnpy/compiler/compiler.py b/capnpy/compiler/compiler.py
index b99615d..b519cc7 100644
--- a/capnpy/compiler/compiler.py
+++ b/capnpy/compiler/compiler.py
@@ -240,8 +240,10 @@ class DynamicCompiler(BaseCompiler):
         mod = import_from_path(modname, str(dll))
         #
         # clean-up the cluttered sys.modules
-        del sys.modules[mod.__name__]
-        del sys.modules[tmpmod.__name__]
+        # (it might have been done already, if the schema imports another one
+        # with the same base name)
+        sys.modules.pop(modname, None)
+        sys.modules.pop(m.tmpname, None)
         return mod
 
     def _get_filename(self, modname, importname, filename):
-- 
2.43.0


From d23ccd964c3421598ad7d0191f37a88004c4d98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:57 +0000
Subject: [PATCH 43/55] fix: schema files whose name is not an identifier

---
 capnpy/compiler/compiler.py |  2 +-
 capnpy/compiler/module.py   |  8 +++-----
 capnpy/compiler/request.py  |  7 ++++---
 capnpy/compiler/util.py     | 11 +++++++++++
 4 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/capnpy/compiler/compiler.py b/capnpy/compiler/compiler.py
index b519cc7..0cb40ea 100644
--- a/capnpy/compiler/compiler.py
+++ b/capnpy/compiler/compiler.py
@@ -81,7 +81,7 @@ class BaseCompiler(object):
 
     def _pyx_to_dll(self, filename, m, src):
         from pyximport.pyxbuild import pyx_to_dll
-        pyxname = filename.new(ext='pyx')
+        pyxname = filename.new(purebasename=m.modname, ext='pyx')
         pyxfile = self.tmpdir.join(pyxname).ensure(file=True)
         pyxfile.write(src)
         if self.annotate:
diff --git a/capnpy/compiler/module.py b/capnpy/compiler/module.py
index 5350b5d..c0ddae4 100644
--- a/capnpy/compiler/module.py
+++ b/capnpy/compiler/module.py
@@ -1,12 +1,11 @@
 from __future__ import print_function
-import py
 import six
 import keyword
 from collections import defaultdict
 from pypytools.codegen import Code
 from six import PY3
 
-from capnpy.compiler.util import as_identifier
+from capnpy.compiler.util import as_identifier, as_module_name
 from capnpy.convert_case import from_camel_case
 from capnpy import schema
 from capnpy import annotate
@@ -135,9 +134,8 @@ class ModuleGenerator(object):
         return self.code.block(*args, **kwargs)
 
     def register_import(self, fname):
-        name = py.path.local(fname).purebasename
-        name = name.replace('+', 'PLUS')
-        name = '_%s_capnp' % name
+        # no leading underscores, else the name would be mangled in classes
+        name = '_%s_capnp' % as_module_name(fname).lstrip('_')
         if name in self.importnames.values():
             # avoid name clashes
             name = '%s_%s' % (name, len(self.importnames))
diff --git a/capnpy/compiler/request.py b/capnpy/compiler/request.py
index e0d6fef..cad8b3f 100644
--- a/capnpy/compiler/request.py
+++ b/capnpy/compiler/request.py
@@ -1,10 +1,9 @@
-import py
 from datetime import datetime
 from six import PY3
 import capnpy
 from capnpy import schema
 from capnpy.type import Types
-from capnpy.compiler.util import as_identifier
+from capnpy.compiler.util import as_identifier, as_module_name
 from capnpy import annotate
 
 
@@ -20,7 +19,9 @@ class CodeGeneratorRequest:
 class RequestedFile:
 
     def emit(self, m):
-        m.modname = py.path.local(as_identifier(self.filename)).purebasename
+        m.modname = as_module_name(as_identifier(self.filename))
+        if m.modname[0].isdigit():
+            m.modname = '_' + m.modname
         if not PY3:
             m.modname = m.modname.encode('utf-8')
         m.tmpname = '%s_tmp' % m.modname
diff --git a/capnpy/compiler/util.py b/capnpy/compiler/util.py
index b48a257..4496c8a 100644
--- a/capnpy/compiler/util.py
+++ b/capnpy/compiler/util.py
@@ -1,3 +1,5 @@
+import re
+import py
 import six
 
 def as_identifier(s):
@@ -29,3 +31,12 @@ def as_identifier(s):
         return decoded_s
     else:
         return s
+
+def as_module_name(filename):
+    """
+    Turn the name of a schema file into something which can be part of an
+    identifier, e.g. foo-bar.capnp becomes foo_2d_bar
+    """
+    name = py.path.local(filename).purebasename
+    name = name.replace('+', 'PLUS')
+    return re.sub(r'[^a-zA-Z0-9_]', lambda m: '_%x_' % ord(m.group()), name)
-- 
2.43.0


From 4e5742138eb85cc5d1b4a799222dcda5b7de6657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:04 +0000
Subject: [PATCH 44/55] fix: import cycles

---
 capnpy/compiler/compiler.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/capnpy/compiler/compiler.py b/capnpy/compiler/compiler.py
index 0cb40ea..c10295d 100644
--- a/capnpy/compiler/compiler.py
+++ b/capnpy/compiler/compiler.py
@@ -26,11 +26,13 @@ DEFAULT_OPTIONS = annotate.Options(
 PKGDIR = py.path.local(capnpy.__file__).dirpath()
 
 
-def import_from_path(module_name, file_path):
+def import_from_path(module_name, file_path, register=None):
     import importlib.util
     spec = importlib.util.spec_from_file_location(module_name, file_path)
     module = importlib.util.module_from_spec(spec)
     sys.modules[module_name] = module
+    if register is not None:
+        register(module)
     spec.loader.exec_module(module)
     return module
 
@@ -190,7 +192,11 @@ class DynamicCompiler(BaseCompiler):
         try:
             return self.modules[filename]
         except KeyError:
-            mod = self._compile_file(filename, pyx, options)
+            try:
+                mod = self._compile_file(filename, pyx, options)
+            except:
+                self.modules.pop(filename, None)
+                raise
             self.modules[filename] = mod
             return mod
 
@@ -210,6 +216,8 @@ class DynamicCompiler(BaseCompiler):
         mod.__schema__ = str(filename)
         mod.__source__ = str(src)
         mod.__dict__['__compiler'] = self
+        # register it now, in case it is part of an import cycle
+        self.modules[filename] = mod
         exec(src.compile(), mod.__dict__)
         return mod
 
@@ -237,7 +245,10 @@ class DynamicCompiler(BaseCompiler):
         tmpmod.__dict__['__schema__'] = str(filename)
         sys.modules[m.tmpname] = tmpmod
         modname = 'capnpy.ext.%s' % m.modname
-        mod = import_from_path(modname, str(dll))
+        # register it before executing it, in case it is part of an import cycle
+        mod = import_from_path(
+            modname, str(dll),
+            register=lambda mod: self.modules.__setitem__(filename, mod))
         #
         # clean-up the cluttered sys.modules
         # (it might have been done already, if the schema imports another one
-- 
2.43.0


From 7166694073847eee63859e9e625e143fa0fe426f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:14 +0000
Subject: [PATCH 45/55] fix: types of files which are not imported directly

---
 capnpy/compiler/request.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/capnpy/compiler/request.py b/capnpy/compiler/request.py
index cad8b3f..97de495 100644
--- a/capnpy/compiler/request.py
+++ b/capnpy/compiler/request.py
@@ -144,17 +144,27 @@ class RequestedFile:
         m.w()
 
     def _declare_imports(self, m):
-        for imp in self.imports:
+        imports = [(imp.id, as_identifier(imp.name)) for imp in self.imports]
+        # there might be also files which are used but not imported directly:
+        # this happens if an imported file contains an alias to a type which
+        # is defined elsewhere
+        known = set([self.id] + [id for id, fullpath in imports])
+        for node in m.allnodes.values():
+            if node.is_file() and node.id not in known:
+                displayname = as_identifier(node.displayName)
+                imports.append((node.id, '/' + displayname.lstrip('/')))
+        #
+        for id, fullpath in imports:
             ns = m.code.new_scope()
             try:
-                filenode = m.allnodes[imp.id]
+                filenode = m.allnodes[id]
             except KeyError:
                 # this means that the file was imported but not used
                 # anywhere. Simply ignore it
                 continue
             fname = as_identifier(filenode.displayName)
             ns.importname = m.register_import(fname)
-            ns.fullpath = as_identifier(imp.name)
+            ns.fullpath = fullpath
             if ns.fullpath == '/capnp/c++.capnp':
                 # ignore this file as it's useless for python
                 continue
-- 
2.43.0


From de8d643ad68c642bca1222288f0c5b1c1ed767b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:21 +0000
Subject: [PATCH 46/55] fix: lists of nested types of an imported file in pure
 python mode

---
 capnpy/compiler/node.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/capnpy/compiler/node.py b/capnpy/compiler/node.py
index 5c54c64..952057a 100644
--- a/capnpy/compiler/node.py
+++ b/capnpy/compiler/node.py
@@ -86,7 +86,12 @@ class Node:
 
     def compile_name(self, m, prefix=''):
         if self.is_imported(m):
-            return self.runtime_name(m, sep='.' + prefix)
+            name = self.runtime_name(m)
+            if prefix:
+                # the prefixed names are globals of the other module
+                filename, name = name.split('.', 1)
+                name = '%s.%s%s' % (filename, prefix, name.replace('.', '_'))
+            return name
         return prefix + self._fullname(m, '_')
 
     def runtime_name(self, m, sep='.'):
-- 
2.43.0


From d02973a22997ec2bfdd27af89e0afa624e6b8546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:20 +0000
Subject: [PATCH 47/55] fix: loading two schemas with the same base name in pyx
 mode

---
 capnpy/compiler/compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/capnpy/compiler/compiler.py b/capnpy/compiler/compiler.py
index c10295d..e754a8e 100644
--- a/capnpy/compiler/compiler.py
+++ b/capnpy/compiler/compiler.py
@@ -89,8 +89,10 @@ class BaseCompiler(object):
         if self.annotate:
             import Cython.Compiler.Options
             Cython.Compiler.Options.annotate = True
+        # don't share the build dir among different directories, else two
+        # schemas with the same base name would end up in the same dll
         dll = pyx_to_dll(str(pyxfile),
-                         pyxbuild_dir=str(self.tmpdir),
+                         pyxbuild_dir=pyxfile.dirname,
                          setup_args=dict(
                              include_dirs=self.include_dirs,
                          ))
-- 
2.43.0


From ceb819f461f35ef927d21eb66bd885850cafd871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:53 +0000
Subject: [PATCH 48/55] fix: do not convert whole lists to compare them

---
 capnpy/list.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/capnpy/list.py b/capnpy/list.py
index 7a5e601..f8c2d61 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -86,14 +86,18 @@ class List(Blob):
         if not self._item_type.can_compare():
             raise TypeError("Cannot compare lists of structs.")
         if isinstance(other, list):
-            return list(self) == other
+            return len(other) == self._item_count and list(self) == other
         if self.__class__ is not other.__class__:
             return False
         # we cannot compare the memory directly: the same items can be encoded
         # in many different ways (e.g. because of pointers and padding)
-        return (self._item_count == other._item_count and
-                self._item_type.get_type() == other._item_type.get_type() and
-                list(self) == list(other))
+        if (self._item_count != other._item_count or
+            self._item_type.get_type() != other._item_type.get_type()):
+            return False
+        for i in range(self._item_count):
+            if not self._getitem_fast(i) == other._getitem_fast(i):
+                return False
+        return True
 
     def shortrepr(self):
         parts = [self._item_type.item_repr(item) for item in self]
-- 
2.43.0


From c8d4bbeadd7e7403393998f388e7e6fbc3160c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:09 +0000
Subject: [PATCH 49/55] fix: escape text like the official tool, and textual
 form of lists of data and of null items

---
 capnpy/list.py |  4 +++-
 capnpy/util.py | 11 ++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/capnpy/list.py b/capnpy/list.py
index f8c2d61..ea6f63d 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -6,7 +6,7 @@ import capnpy
 from capnpy.type import Types, BuiltinType
 from capnpy.blob import Blob, PYX
 from capnpy import ptr
-from capnpy.util import (float32_repr, float64_repr, decode_maybe,
+from capnpy.util import (float32_repr, float64_repr, decode_maybe, data_repr,
                          encode_maybe, text_bytes_repr, text_unicode_repr)
 from capnpy.segment.endof import endof
 
@@ -341,6 +341,8 @@ class TextItemType(ItemType):
         return lst._seg.read_str(p, offset, None, self.additional_size)
 
     def item_repr(self, item):
+        if self.additional_size == 0:
+            return data_repr(item or b'')
         return text_bytes_repr(item)
 
     def write_item(self, builder, pos, item):
diff --git a/capnpy/util.py b/capnpy/util.py
index d2bbf23..98c039b 100644
--- a/capnpy/util.py
+++ b/capnpy/util.py
@@ -108,13 +108,18 @@ def nested_shortrepr(obj):
 def nested_hash(obj):
     return hash(obj)
 
+# the same escapes as "capnp decode"
+TEXT_ESCAPES = dict((ch, u'\\%03o' % ch) for ch in list(range(32)) + [127])
+TEXT_ESCAPES.update((ord(ch), u'\\' + esc)
+                    for ch, esc in zip(u'\a\b\t\n\v\f\r"\'\\', u'abtnvfr"\'\\'))
+
 def text_bytes_repr(s):
     return text_unicode_repr(decode_maybe(s))
 
 def text_unicode_repr(s):
-    s = s.replace('"', r'\"')
-    s = s.replace("'", r"\'")
-    return u'"%s"' % s
+    if s is None:
+        s = u'' # null item of a list
+    return u'"%s"' % s.translate(TEXT_ESCAPES)
 
 def data_repr(s):
     s = repr(s).lstrip('b')
-- 
2.43.0


From 10076a1e824f0795cf2143809745f9eb66b7b8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:20 +0000
Subject: [PATCH 50/55] fix: textual form of enumerants

---
 capnpy/compiler/enum.py    |  4 +++-
 capnpy/compiler/module.py  |  7 ++++++-
 capnpy/compiler/request.py |  1 +
 capnpy/compiler/struct_.py |  4 +++-
 capnpy/enum.py             | 10 ++++++++++
 capnpy/list.py             |  4 ++++
 6 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/capnpy/compiler/enum.py b/capnpy/compiler/enum.py
index d070d64..85be42e 100644
--- a/capnpy/compiler/enum.py
+++ b/capnpy/compiler/enum.py
@@ -14,7 +14,9 @@ class Node__Enum:
     def emit_declaration(self, m):
         name =  self.compile_name(m)
         items = [m.py_field_name(item) for item in self.get_enum_enumerants()]
-        m.declare_enum(name, self.shortname(m), self.id, items)
+        capnp_names = [m.capnp_field_name(item)
+                       for item in self.get_enum_enumerants()]
+        m.declare_enum(name, self.shortname(m), self.id, items, capnp_names)
         m.w('_{name}_list_item_type = _EnumItemType({name})', name=name)
         m.w()
 
diff --git a/capnpy/compiler/module.py b/capnpy/compiler/module.py
index c0ddae4..a52f365 100644
--- a/capnpy/compiler/module.py
+++ b/capnpy/compiler/module.py
@@ -187,9 +187,12 @@ class ModuleGenerator(object):
             name += '_'
         return name
 
-    def declare_enum(self, compile_name, name, capnpy_id, items):
+    def declare_enum(self, compile_name, name, capnpy_id, items,
+                     capnp_names=None):
         # this method cannot go on Node__Enum because it's also called by
         # Node__Struct (for __tag__)
+        if capnp_names == items:
+            capnp_names = None
         items = list(map(repr, items))
         ns = self.code.new_scope()
         ns.name = compile_name
@@ -202,6 +205,8 @@ class ModuleGenerator(object):
         with ns.block("class {name}(_BaseEnum):"):
             ns.w("__capnpy_id__ = {capnpy_id}")
             ns.w("__members__ = {members}")
+            if capnp_names:
+                ns.w("__capnp_names__ = {names}", names=repr(tuple(capnp_names)))
             ns.w("@staticmethod")
             with ns.block('def _new(x):') as ns:
                 ns.w('return {name}(x)')
diff --git a/capnpy/compiler/request.py b/capnpy/compiler/request.py
index 97de495..9ba3113 100644
--- a/capnpy/compiler/request.py
+++ b/capnpy/compiler/request.py
@@ -53,6 +53,7 @@ class RequestedFile:
         m.w("from capnpy.struct_ import undefined as _undefined")
         m.w("from capnpy.enum import enum as _enum, fill_enum as _fill_enum")
         m.w("from capnpy.enum import BaseEnum as _BaseEnum")
+        m.w("from capnpy.enum import enum_shortrepr as _enum_shortrepr")
         m.w("from capnpy.type import Types as _Types")
         m.w("from capnpy.segment.segment {cimport} Segment as _Segment")
         m.w("from capnpy.segment.segment {cimport} MultiSegment as _MultiSegment")
diff --git a/capnpy/compiler/struct_.py b/capnpy/compiler/struct_.py
index e30432f..fb49dc1 100644
--- a/capnpy/compiler/struct_.py
+++ b/capnpy/compiler/struct_.py
@@ -252,7 +252,9 @@ class Node__Struct:
             return ns.format('_float32_repr(self.{pyname})')
         elif f.is_float64():
             return ns.format('_float64_repr(self.{pyname})')
-        if f.is_primitive() or f.is_enum():
+        if f.is_enum():
+            return ns.format('_enum_shortrepr(self.{pyname})')
+        elif f.is_primitive():
             return ns.format('self.{pyname}')
         elif f.is_bool():
             return ns.format('str(self.{pyname}).lower()')
diff --git a/capnpy/enum.py b/capnpy/enum.py
index 86a8da1..1288dd4 100644
--- a/capnpy/enum.py
+++ b/capnpy/enum.py
@@ -3,6 +3,7 @@ from capnpy.util import magic_setattr
 class BaseEnum(int):
     __slots__ = ()
     __members__ = ()
+    __capnp_names__ = None # the names declared in the schema, if they differ
 
     @property
     def name(self):
@@ -22,6 +23,15 @@ def _enum_name(e):
         return members[e]
     return 'unknown<%d>' % e
 
+def enum_shortrepr(e):
+    """
+    Return the textual form of an enumerant, like "capnp decode"
+    """
+    names = e.__capnp_names__ or e.__members__
+    if 0 <= e < len(names):
+        return names[e]
+    return '(%d)' % e
+
 def fill_enum(cls):
     for i, member in enumerate(cls.__members__):
         value = cls(i)
diff --git a/capnpy/list.py b/capnpy/list.py
index ea6f63d..ccbddfd 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -8,6 +8,7 @@ from capnpy.blob import Blob, PYX
 from capnpy import ptr
 from capnpy.util import (float32_repr, float64_repr, decode_maybe, data_repr,
                          encode_maybe, text_bytes_repr, text_unicode_repr)
+from capnpy.enum import enum_shortrepr
 from capnpy.segment.endof import endof
 
 class List(Blob):
@@ -275,6 +276,9 @@ class EnumItemType(PrimitiveItemType):
         value = PrimitiveItemType.read_item(self, lst, i)
         return self.enumcls(value)
 
+    def item_repr(self, item):
+        return enum_shortrepr(item)
+
 
 class StructItemType(ItemType):
 
-- 
2.43.0


From c31ceba1df6f1c2cddbaa9497505ba237d7a015b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:29 +0000
Subject: [PATCH 51/55] fix: textual form of nullable members of unions

---
 capnpy/compiler/struct_.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/capnpy/compiler/struct_.py b/capnpy/compiler/struct_.py
index fb49dc1..47ea54f 100644
--- a/capnpy/compiler/struct_.py
+++ b/capnpy/compiler/struct_.py
@@ -215,6 +215,7 @@ class Node__Struct:
             ns.w('parts = []')
             for f in fields:
                 ns.pyname = m.py_field_name(f)
+                ns.tagname = ns.pyname
                 ns.capname = m.capnp_field_name(f)
                 if f.is_nullable(m):
                     # if 'x' is nullable, obj.x returns either None or the
@@ -235,12 +236,12 @@ class Node__Struct:
                     # it's null, we don't show anything; see
                     # test_union_set_but_null_pointer for examples.
                     ns.ww("""
-                    if self.is_{pyname}() and (self.has_{pyname}() or
-                                              not {is_default_field}):
+                    if self.is_{tagname}() and (self.has_{pyname}() or
+                                               not {is_default_field}):
                         {append}
                     """)
                 elif f.is_part_of_union():
-                    ns.w("if self.is_{pyname}(): {append}")
+                    ns.w("if self.is_{tagname}(): {append}")
                 elif f.is_pointer():
                     ns.w("if self.has_{pyname}(): {append}")
                 else:
-- 
2.43.0


From 0d1c31be88e68240a61f9ea4ef27398175c38fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:53 +0000
Subject: [PATCH 52/55] fix: end of stream and truncated streams in capnpy
 decode

---
 capnpy/__main__.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/capnpy/__main__.py b/capnpy/__main__.py
index 812f9f8..4d0cc3b 100644
--- a/capnpy/__main__.py
+++ b/capnpy/__main__.py
@@ -17,7 +17,7 @@ import time
 import docopt
 
 from capnpy import load_schema
-from capnpy.message import load
+from capnpy.message import load_all
 from capnpy.annotate import Options
 from capnpy.compiler.compiler import StandaloneCompiler
 
@@ -53,14 +53,8 @@ def decode(args, options):
     print('decoding stream...', file=sys.stderr)
     cls = getattr(mod, args['CLASS'])
     with open(args['FILE'], 'rb') as f:
-        i = 0
-        while True:
-            try:
-                obj = load(f, cls)
-            except ValueError:
-                break
+        for i, obj in enumerate(load_all(f, cls), 1):
             print(obj.shortrepr())
-            i += 1
             if i % 10000 == 0:
                 print(i, file=sys.stderr, end='\r')
     c = time.time()
-- 
2.43.0


From 865edf3d43d382c83770312ae7f25a3dec8a08b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:49 +0000
Subject: [PATCH 53/55] fix: overflow of the number of segments in malformed
 headers

---
 capnpy/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capnpy/message.py b/capnpy/message.py
index ed2ff48..cf4fb40 100644
--- a/capnpy/message.py
+++ b/capnpy/message.py
@@ -58,7 +58,8 @@ def _load_message(f):
         raise EOFError("No message to load")
     elif length < 4:
         raise ValueError("Malformed header: expected 4 bytes, got %d" % len(buf))
-    n = unpack_uint32(buf, 0) + 1
+    n = unpack_uint32(buf, 0)
+    n += 1 # don't do it on the line above, uint32_t might overflow
     if n == 1:
         capnp_buf = _load_buffer_single_segment(f) # fast path
     else:
-- 
2.43.0


From 84b83096ec423e3e251ce88fda94fd1302780ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:22 +0000
Subject: [PATCH 54/55] fix: names of annotations nested in a struct

---
 capnpy/compiler/node.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/capnpy/compiler/node.py b/capnpy/compiler/node.py
index 952057a..9b7230a 100644
--- a/capnpy/compiler/node.py
+++ b/capnpy/compiler/node.py
@@ -112,7 +112,7 @@ class Node__Annotation:
 
     def emit_declaration(self, m):
         ns = m.code.new_scope()
-        ns.name = self.shortname(m)
+        ns.name = m._mangle_name(self.compile_name(m))
         ns.id = self.id
         ns.targets_file = self.annotation.targetsFile
         ns.targets_const = self.annotation.targetsConst
@@ -142,6 +142,17 @@ class Node__Annotation:
                 targets_param = {targets_param}
                 targets_annotation = {targets_annotation}
         """)
+        if self.is_nested(m):
+            # annotations used to be available only at module level: keep it
+            # working, unless the name is used by something else
+            ns.w("globals().setdefault({shortname!r}, {name})",
+                 shortname=str(m._mangle_name(self.shortname(m))))
+
+    def emit_reference_as_child(self, m):
+        if self.is_nested(m):
+            m.w('{shortname} = {name}',
+                shortname=m._mangle_name(self.shortname(m)),
+                name=self.compile_name(m))
 
 
 @Node__Const.__extend__
-- 
2.43.0


From 781bfd4dc4157efd9fcd2fe84bf6aeec28685d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:36 +0000
Subject: [PATCH 55/55] fix: ids of virtual groups must not depend on the hash
 seed

---
 capnpy/schema_extended.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/capnpy/schema_extended.py b/capnpy/schema_extended.py
index 5d0205a..6250724 100644
--- a/capnpy/schema_extended.py
+++ b/capnpy/schema_extended.py
@@ -1,3 +1,5 @@
+from hashlib import md5
+from struct import pack, unpack
 from capnpy.type import Types as _Types
 from capnpy import annotate
 from capnpy.annotate import TextType
@@ -197,9 +199,10 @@ class Node__Struct(Node):
         displayNamePrefixLength = len(parent.displayName) + 1
         scopeId = parent_id
 
-        node_id = parent_id + hash(field_void.name) % 10000
-        # Need a better way to get a UID.
-        # Todo: Use proper md5
+        # the id must be the same every time the schema is processed: this is
+        # the way official capnp computes the ids of nested nodes
+        h = md5(pack('<Q', parent_id) + field_void.name).digest()
+        node_id = unpack('<Q', h[:8])[0] | 2**63
         assert node_id not in m.allnodes
 
         # There shouldn't be any unions inside the group.
-- 
2.43.0

