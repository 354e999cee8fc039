From 000a97ce34a5ef2bd34dc46cc3e9de4b8273afe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:43 +0000
Subject: [PATCH 01/30] fix: bound the ten-byte int32 varint read to the
 remaining bytes

---
 src/core/varint.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/varint.c b/src/core/varint.c
index 3e36101..1bca637 100644
--- a/src/core/varint.c
+++ b/src/core/varint.c
@@ -538,8 +538,12 @@ pb_varint_scan(const uint8_t data[], size_t left) {
 extern size_t
 pb_varint_unpack_int32(const uint8_t data[], size_t left, void *value) {
   size_t size = pb_varint_unpack_uint32(data, left, value);
-  return size ? size :
-    data[4] & 0x80 && data[5] == 0xFF ? 10 : 0;
+  if (size || left < 10)
+    return size;
+
+  /* Negative integers are sign-extended to exactly ten bytes */
+  return data[4] >= 0xF8 && data[5] == 0xFF && data[6] == 0xFF &&
+    data[7] == 0xFF && data[8] == 0xFF && data[9] == 0x01 ? 10 : 0;
 }
 
 /*!
-- 
2.43.0


From df422ba5f9e23a85172515bd6d93e996504e803c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:43 +0000
Subject: [PATCH 02/30] fix: do not load beyond the end of the buffer when
 scanning varints

---
 src/core/varint.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/core/varint.c b/src/core/varint.c
index 1bca637..bee3167 100644
--- a/src/core/varint.c
+++ b/src/core/varint.c
@@ -481,10 +481,20 @@ pb_varint_pack_sint64(uint8_t data[], const void *value) {
 extern size_t
 pb_varint_scan(const uint8_t data[], size_t left) {
   assert(data && left);
-  left = left > 10 ? 10 : left;
 
 #ifdef __SSE2__
 
+  /* Linear scan, as a 128-bit load would exceed the buffer */
+  if (left < 16) {
+    size_t size = 0;
+    left = left > 10 ? 10 : left;
+    while (data[size++] & 0x80)
+      if (!--left)
+        return 0;
+    return size;
+  }
+  left = 10;
+
   /* Mapping: remaining bytes ==> bitmask */
   static const int mask_map[] = {
     0x0000, 0x0001, 0x0003, 0x0007,
@@ -505,6 +515,8 @@ pb_varint_scan(const uint8_t data[], size_t left) {
 
 #else
 
+  left = left > 10 ? 10 : left;
+
   /* Linear scan */
   size_t size = 0;
   while (data[size++] & 0x80)
-- 
2.43.0


From 2dff80cd78193385e41974ebcca7711932eccd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:43 +0000
Subject: [PATCH 03/30] fix: report an error when reading a varint from an
 exhausted stream

---
 src/core/stream.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/stream.c b/src/core/stream.c
index 71c395d..145ff09 100644
--- a/src/core/stream.c
+++ b/src/core/stream.c
@@ -45,6 +45,8 @@
 static pb_error_t
 read_varint(pb_stream_t *stream, pb_type_t type, void *value) {
   assert(stream && value);
+  if (unlikely_(!pb_stream_left(stream)))
+    return PB_ERROR_VARINT;
   size_t size = pb_varint_unpack(type,
     pb_buffer_data_from(stream->buffer, stream->offset),
     pb_stream_left(stream), value);
@@ -82,6 +84,8 @@ read_64bit(pb_stream_t *stream, pb_type_t type, void *value) {
 static pb_error_t
 read_length(pb_stream_t *stream, pb_type_t type, void *value) {
   assert(stream && value);
+  if (unlikely_(!pb_stream_left(stream)))
+    return PB_ERROR_VARINT;
   uint32_t length = 0;
   size_t size = pb_varint_unpack_uint32(
     pb_buffer_data_from(stream->buffer, stream->offset),
@@ -126,6 +130,8 @@ read_32bit(pb_stream_t *stream, pb_type_t type, void *value) {
 static pb_error_t
 skip_varint(pb_stream_t *stream) {
   assert(stream);
+  if (unlikely_(!pb_stream_left(stream)))
+    return PB_ERROR_VARINT;
   size_t size = pb_varint_scan(
     pb_buffer_data_from(stream->buffer, stream->offset),
     pb_stream_left(stream));
@@ -155,6 +161,8 @@ skip_64bit(pb_stream_t *stream) {
 static pb_error_t
 skip_length(pb_stream_t *stream) {
   assert(stream);
+  if (unlikely_(!pb_stream_left(stream)))
+    return PB_ERROR_VARINT;
   uint32_t length = 0;
   size_t size = pb_varint_unpack_uint32(
     pb_buffer_data_from(stream->buffer, stream->offset),
-- 
2.43.0


From 26e4306a1c34d3f3408544755a182e6770c5992c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:43 +0000
Subject: [PATCH 04/30] fix: reject unsupported wiretypes instead of calling a
 null pointer

---
 src/core/stream.c | 2 +-
 src/core/stream.h | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/stream.c b/src/core/stream.c
index 145ff09..739a673 100644
--- a/src/core/stream.c
+++ b/src/core/stream.c
@@ -212,7 +212,7 @@ pb_stream_read_jump[] = {
 
 /*! Jump table: wiretype ==> skip method */
 const pb_stream_skip_f
-pb_stream_skip_jump[7] = {
+pb_stream_skip_jump[8] = {
   [PB_WIRETYPE_VARINT] = skip_varint,
   [PB_WIRETYPE_64BIT]  = skip_64bit,
   [PB_WIRETYPE_LENGTH] = skip_length,
diff --git a/src/core/stream.h b/src/core/stream.h
index bdd40bd..9dee8b7 100644
--- a/src/core/stream.h
+++ b/src/core/stream.h
@@ -211,8 +211,9 @@ pb_stream_read(pb_stream_t *stream, pb_type_t type, void *value) {
 PB_INLINE PB_WARN_UNUSED_RESULT
 pb_error_t
 pb_stream_skip(pb_stream_t *stream, pb_wiretype_t wiretype) {
-  assert(pb_stream_skip_jump[wiretype]);
-  return pb_stream_skip_jump[wiretype](stream);
+  return likely_(pb_stream_skip_jump[wiretype] != NULL)
+    ? pb_stream_skip_jump[wiretype](stream)
+    : PB_ERROR_INVALID;
 }
 
 #endif /* PB_CORE_STREAM_H */
-- 
2.43.0


From 53dbcf7f90d927fad9f1b9b11d4b902a16a9c9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:43 +0000
Subject: [PATCH 05/30] fix: do not grow the stack with every decoded field

---
 src/core/decoder.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/decoder.c b/src/core/decoder.c
index 8877ea5..72183c5 100644
--- a/src/core/decoder.c
+++ b/src/core/decoder.c
@@ -85,6 +85,9 @@ pb_decoder_decode(
     return PB_ERROR_INVALID;
   pb_error_t error = PB_ERROR_NONE;
 
+  /* Allocate temporary space for type-agnostic decoding (largest type) */
+  void *value = alloca(sizeof(pb_string_t));
+
   /* Iterate tag-value pairs */
   pb_stream_t stream = pb_stream_create(decoder->buffer);
   while (!error && pb_stream_left(&stream)) {
@@ -104,10 +107,6 @@ pb_decoder_decode(
       continue;
     }
 
-    /* Allocate temporary space for type-agnostic decoding */
-    size_t item = pb_field_descriptor_type_size(descriptor);
-    void *value = alloca(item);
-
     /* Non-packed fields may also be encoded in packed encoding */
     pb_type_t type = pb_field_descriptor_type(descriptor);
     if (wiretype != pb_field_descriptor_wiretype(descriptor) &&
-- 
2.43.0


From c210f03a19fb93d9ed4fee7a450ee4e1e700a82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:43 +0000
Subject: [PATCH 06/30] fix: stop encoding at the first failed value

---
 src/core/encoder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/encoder.c b/src/core/encoder.c
index 8c20e62..4575787 100644
--- a/src/core/encoder.c
+++ b/src/core/encoder.c
@@ -382,7 +382,7 @@ pb_encoder_encode(
 
     /* Encode values one-by-one */
     const uint8_t *temp = values;
-    for (size_t v = 0; v < size; v++) {
+    for (size_t v = 0; !error && v < size; v++) {
       assert(encoder != (void *)temp);
       error = encode(&(encoder->buffer), descriptor, temp);
       temp += type_size;
-- 
2.43.0


From 134c074157e384fc301d2fe4edd32900f925908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:43 +0000
Subject: [PATCH 07/30] fix: compare the visited field when checking the active
 oneof member

---
 src/message/cursor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index 586ba5b..1429674 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -224,7 +224,7 @@ pb_cursor_create(pb_message_t *message, pb_tag_t tag) {
         pb_cursor_t temp = pb_cursor_copy(&cursor); temp.tag = 0;
         while (pb_cursor_next(&temp)) {
           int member = pb_field_descriptor_oneof(descriptor) ==
-            pb_field_descriptor_oneof(cursor.current.descriptor);
+            pb_field_descriptor_oneof(temp.current.descriptor);
           if (member && (cursor.error = PB_ERROR_EOM))
             break;
         }                                                  /* LCOV_EXCL_LINE */
-- 
2.43.0


From 6e3e2b1dbfd35f42aeedd190b27b01510a9676e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:43 +0000
Subject: [PATCH 08/30] fix: strings of different sizes are not equal

---
 include/protobluff/core/string.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/protobluff/core/string.h b/include/protobluff/core/string.h
index ece1721..acde32b 100644
--- a/include/protobluff/core/string.h
+++ b/include/protobluff/core/string.h
@@ -127,7 +127,8 @@ pb_string_empty(const pb_string_t *string) {
 PB_INLINE int
 pb_string_equals(const pb_string_t *x, const pb_string_t *y) {
   assert(x && y);
-  return !memcmp(pb_string_data(x), pb_string_data(y), pb_string_size(y));
+  return pb_string_size(x) == pb_string_size(y) &&
+    !memcmp(pb_string_data(x), pb_string_data(y), pb_string_size(y));
 }
 
 /* ----------------------------------------------------------------------------
-- 
2.43.0


From ee56c0bf40a4e90f7dfef8cd7db0f462c568116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:43 +0000
Subject: [PATCH 09/30] fix: report a failed chunk reallocation

---
 src/util/chunk_allocator.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/chunk_allocator.c b/src/util/chunk_allocator.c
index c078309..e63a6fb 100644
--- a/src/util/chunk_allocator.c
+++ b/src/util/chunk_allocator.c
@@ -159,7 +159,8 @@ allocator_resize(void *data, void *block, size_t size) {
         /* Return resized block */
         return block_from_chunk(head->next);
       }
-    }                                                      /* LCOV_EXCL_LINE */
+      return NULL;                                         /* LCOV_EXCL_LINE */
+    }
 
   /* Allocate new block */
   } else {
-- 
2.43.0


From 3b1f3f152346de1b64f4bd33d4c0972cb912898d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:43 +0000
Subject: [PATCH 10/30] fix: account for extensions when validating

---
 src/util/validator.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/util/validator.c b/src/util/validator.c
index ed66c93..1f08156 100644
--- a/src/util/validator.c
+++ b/src/util/validator.c
@@ -93,10 +93,16 @@ check(const pb_decoder_t *decoder) {
   assert(decoder);
   assert(pb_decoder_valid(decoder));
 
+  /* Determine field count including extensions */
+  size_t size = 0;
+  const pb_descriptor_t *current = pb_decoder_descriptor(decoder);
+  do {
+    size += pb_descriptor_size(current);
+  } while ((current = pb_descriptor_extension(current)));
+
   /* Initialize occurrence counter */
   pb_validator_tags_t tags = {
-    .data = alloca(sizeof(pb_tag_t)
-          * pb_descriptor_size(pb_decoder_descriptor(decoder))),
+    .data = alloca(sizeof(pb_tag_t) * size),
     .size = 0
   };
 
-- 
2.43.0


From 9383d75defb27e67639cd649ae7ea72768bedff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:43 +0000
Subject: [PATCH 11/30] fix: find enum values with negative or shared numbers

---
 src/core/descriptor.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/descriptor.c b/src/core/descriptor.c
index 03c7ee4..61f0c4e 100644
--- a/src/core/descriptor.c
+++ b/src/core/descriptor.c
@@ -160,8 +160,8 @@ pb_descriptor_extend(
 /*!
  * Retrieve the value descriptor for a given number from an enum descriptor.
  *
- * \warning To find the matching enum value descriptor quickly if any, the same
- * approach like in pb_descriptor_field_by_tag() is used.
+ * Enum values are always in ascending order, but may be negative or share the
+ * same number, so the number can't be used to limit the search.
  *
  * \param[in] descriptor Enum descriptor
  * \param[in] number     Number
@@ -172,7 +172,7 @@ pb_enum_descriptor_value_by_number(
     const pb_enum_descriptor_t *descriptor, pb_enum_t number) {
   assert(descriptor);
   if (descriptor->value.size) {
-    size_t v = min(number, descriptor->value.size - 1);
+    size_t v = descriptor->value.size - 1;
     do {
       if (pb_enum_value_descriptor_number(
           &(descriptor->value.data[v])) == number) {
-- 
2.43.0


From 44a62d54b58ebc1dc3577563b9cbe5fe77c2b392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:43 +0000
Subject: [PATCH 12/30] fix: single-item descriptor iterators have a last item

---
 include/protobluff/core/descriptor.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/protobluff/core/descriptor.h b/include/protobluff/core/descriptor.h
index 1d35cf3..0f847f5 100644
--- a/include/protobluff/core/descriptor.h
+++ b/include/protobluff/core/descriptor.h
@@ -376,7 +376,7 @@ int
 pb_descriptor_iter_end(pb_descriptor_iter_t *it) {
   assert(it);
   return !pb_descriptor_empty(it->descriptor)
-    ? !!(it->pos = pb_descriptor_size(it->descriptor) - 1)
+    ? (it->pos = pb_descriptor_size(it->descriptor) - 1, 1)
     : 0;
 }
 
@@ -543,7 +543,7 @@ int
 pb_enum_descriptor_iter_end(pb_enum_descriptor_iter_t *it) {
   assert(it);
   return !pb_enum_descriptor_empty(it->descriptor)
-    ? !!(it->pos = pb_enum_descriptor_size(it->descriptor) - 1)
+    ? (it->pos = pb_enum_descriptor_size(it->descriptor) - 1, 1)
     : 0;
 }
 
@@ -684,7 +684,7 @@ int
 pb_oneof_descriptor_iter_end(pb_oneof_descriptor_iter_t *it) {
   assert(it);
   return !pb_oneof_descriptor_empty(it->descriptor)
-    ? !!(it->pos = pb_oneof_descriptor_size(it->descriptor) - 1)
+    ? (it->pos = pb_oneof_descriptor_size(it->descriptor) - 1, 1)
     : 0;
 }
 
-- 
2.43.0


From 18aa2619680539a55e06e95e24aaf0c264c744c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:43 +0000
Subject: [PATCH 13/30] fix: do not report a truncated last field as the end of
 the message

---
 src/message/cursor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index 1429674..e8ba876 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -170,7 +170,7 @@ next(pb_cursor_t *cursor) {
   }
 
   /* Invalidate cursor if at end */
-  if (!(pb_stream_left(&stream) && cursor->error))
+  if (!cursor->error)
     cursor->error = PB_ERROR_EOM;
 
   /* Cleanup and return */
-- 
2.43.0


From a709780eaeafbecbf916af946a36e5d5283afa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:12 +0000
Subject: [PATCH 14/30] fix: do not leave a dangling tag behind when encoding a
 value fails

---
 src/core/encoder.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/encoder.c b/src/core/encoder.c
index 4575787..4041f45 100644
--- a/src/core/encoder.c
+++ b/src/core/encoder.c
@@ -272,6 +272,7 @@ encode(
   /* Pack wiretype into tag */
   pb_wiretype_t wiretype = pb_field_descriptor_wiretype(descriptor);
   pb_tag_t tag = (pb_field_descriptor_tag(descriptor) << 3) | wiretype;
+  size_t   end = pb_buffer_size(buffer);
 
   /* Encode tag and value */
   uint8_t *data = pb_buffer_grow(
@@ -281,7 +282,12 @@ encode(
 
     /* Encode value */
     assert(encode_jump[wiretype]);
-    return encode_jump[wiretype](buffer, descriptor, value);
+    pb_error_t error = encode_jump[wiretype](buffer, descriptor, value);
+
+    /* Remove dangling tag */
+    if (unlikely_(error))
+      buffer->size = end;
+    return error;
   }
   return PB_ERROR_ALLOC;
 }
-- 
2.43.0


From 42f2fc58adb3970bcdadded8a59a3811bbd07543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:50 +0000
Subject: [PATCH 15/30] fix: align the packed context of every field encoded in
 packed encoding

---
 src/message/cursor.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index e8ba876..4063ef8 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -548,8 +548,7 @@ pb_cursor_align(pb_cursor_t *cursor) {
     pb_version_t version = pb_cursor_version(cursor);
 
     /* Align current packed context offset, if given */
-    const pb_field_descriptor_t *descriptor = cursor->current.descriptor;
-    if (pb_field_descriptor_packed(descriptor)) {
+    if (cursor->current.packed.end) {
       pb_version_t version = pb_cursor_version(cursor);
       error = pb_journal_align(pb_cursor_journal(cursor),
         &version, &(cursor->current.packed));
-- 
2.43.0


From a7e79c72d3832cffd63bd8373c410dc5b59bdb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:10 +0000
Subject: [PATCH 16/30] fix: refresh the insertion point after erasing oneof
 members

---
 src/message/part.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/message/part.c b/src/message/part.c
index b1c8b7b..4ad771b 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -396,6 +396,7 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
           pb_cursor_align(&cursor);
           if (pb_message_align(message))
             break;                                         /* LCOV_EXCL_LINE */
+          start = pb_message_start(message);
         }
 
         /* If the tag matches and the field is non-repeated, we're done */
-- 
2.43.0


From a012b77944895d4e6ea3706f0a5448e18a36308d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:10 +0000
Subject: [PATCH 17/30] fix: keep handles aligned when length prefixes shrink
 or ancestors are erased

---
 src/message/journal.c | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/message/journal.c b/src/message/journal.c
index f71a6ef..0923dc1 100644
--- a/src/message/journal.c
+++ b/src/message/journal.c
@@ -348,8 +348,11 @@ pb_journal_align(
     const pb_journal_entry_t *entry = &journal->entry.data[*version];
 
     /* Change happened before current part: move */
-    if (entry->origin < offset->start &&
-        entry->offset < offset->end) {
+    if (entry->origin < offset->start && (
+        entry->offset < offset->end ||
+        entry->offset <= offset->start + offset->diff.origin || (
+          offset->diff.length &&
+          entry->origin == offset->start + offset->diff.length))) {
       offset->start += entry->delta;
       offset->end   += entry->delta;
 
@@ -359,8 +362,11 @@ pb_journal_align(
         &(offset->diff.tag),
         &(offset->diff.length)
       };
+      int inside = entry->origin >=
+        offset->start + offset->diff.origin - entry->delta;
       for (size_t d = 0; d < 3; ++d)
-        if (entry->offset > offset->start + *(diff[d]) - entry->delta)
+        if ((inside && !d) ||
+            entry->offset > offset->start + *(diff[d]) - entry->delta)
           *(diff[d]) -= entry->delta;
 
     /* Change happened within current part: resize or clear */
@@ -379,21 +385,24 @@ pb_journal_align(
       /* Current part was cleared: clear */
       } else if (offset->start + offset->diff.tag >=
                  offset->end   + entry->delta) {
-        offset->start      += offset->diff.tag;
-        offset->end        += entry->delta;
-        offset->diff.origin = 0;
-        offset->diff.tag    = 0;
-        offset->diff.length = 0;
+        offset->start       += offset->diff.tag;
+        offset->end         += entry->delta;
+        offset->diff.origin -= offset->diff.tag;
+        offset->diff.tag     = 0;
+        offset->diff.length  = 0;
 
         /* Invalidate after alignment */
         invalid = 1;
       }
 
     /* Change happened outside current part: clear */
-    } else if (entry->origin <= offset->start + offset->diff.origin &&
-               entry->origin == entry->offset + entry->delta) {
-      offset->start       = entry->origin;
-      offset->end         = entry->origin;
+    } else if ((entry->origin <= offset->start + offset->diff.origin &&
+                entry->origin == entry->offset + entry->delta) || (
+                entry->offset >  offset->start + offset->diff.origin &&
+                entry->offset + entry->delta <
+                  offset->start + offset->diff.origin)) {
+      offset->start       = entry->offset + entry->delta;
+      offset->end         = entry->offset + entry->delta;
       offset->diff.origin = 0;
       offset->diff.tag    = 0;
       offset->diff.length = 0;
-- 
2.43.0


From b81ceeec35e1be7243c5090127f56abedb02019e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:53 +0000
Subject: [PATCH 18/30] fix: put the visible occurrence of a field in messages
 with unordered fields

---
 src/message/part.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message/part.c b/src/message/part.c
index 4ad771b..dc219c4 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -365,7 +365,8 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
     pb_cursor_t temp   = pb_cursor_copy(&cursor);
     if (pb_cursor_valid(&temp)) {
       do {
-        if (pb_cursor_tag(&temp) <= tag) {
+        if (pb_cursor_tag(&temp) == tag ||
+           (pb_cursor_tag(&temp) <  tag && pb_cursor_tag(&cursor) != tag)) {
           pb_cursor_destroy(&cursor);
           cursor = pb_cursor_copy(&temp);
         }
-- 
2.43.0


From 3199e11cc56d54d1a7d5c0fbae43b5f4f52cdc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:07 +0000
Subject: [PATCH 19/30] fix: append to a packed field only if the last
 occurrence is packed

---
 src/message/part.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/part.c b/src/message/part.c
index dc219c4..f4346be 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -431,7 +431,7 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
 
       /* Initialize length prefix of part underlying a packed field */
       if (pb_field_descriptor_packed(descriptor)) {
-        if (tag != pb_cursor_tag(&cursor)) {
+        if (tag != pb_cursor_tag(&cursor) || !cursor.current.packed.end) {
           init(&part, PB_WIRETYPE_LENGTH, tag);
 
           /* Correct offsets for packed field */
-- 
2.43.0


From fe5cc8c3c6295138c9c4188ae74961be9669abdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:52 +0000
Subject: [PATCH 20/30] fix: skip fields whose wiretype differs from the one
 declared

---
 src/core/decoder.c   | 6 ++++--
 src/message/cursor.c | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/core/decoder.c b/src/core/decoder.c
index 72183c5..768f944 100644
--- a/src/core/decoder.c
+++ b/src/core/decoder.c
@@ -99,10 +99,12 @@ pb_decoder_decode(
     pb_wiretype_t wiretype = tag & 7;
     tag >>= 3;
 
-    /* Check descriptor and skip field if unknown */
+    /* Check descriptor and skip field if unknown or of different wiretype */
     const pb_field_descriptor_t *descriptor =
       pb_descriptor_field_by_tag(decoder->descriptor, tag);
-    if (unlikely_(!descriptor)) {
+    if (unlikely_(!descriptor || (
+        wiretype != pb_field_descriptor_wiretype(descriptor) &&
+        wiretype != PB_WIRETYPE_LENGTH))) {
       error = pb_stream_skip(&stream, wiretype);
       continue;
     }
diff --git a/src/message/cursor.c b/src/message/cursor.c
index 4063ef8..17fd3e3 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -153,8 +153,9 @@ next(pb_cursor_t *cursor) {
     }
 
     /* Switch to packed context in case of packed field */
-    if (wiretype != pb_field_descriptor_wiretype(cursor->current.descriptor) &&
-        wiretype == PB_WIRETYPE_LENGTH) {
+    if (wiretype != pb_field_descriptor_wiretype(cursor->current.descriptor)) {
+      if (wiretype != PB_WIRETYPE_LENGTH)
+        continue;
       *packed = *offset;
 
       /* Prepare offsets for packed field members */
-- 
2.43.0


From 99d0c5d2bf2262c2ab86d65e6e122f438cf7ad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:57 +0000
Subject: [PATCH 21/30] fix: reject packed values which exceed their packed
 field

---
 src/core/decoder.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/decoder.c b/src/core/decoder.c
index 768f944..63fa473 100644
--- a/src/core/decoder.c
+++ b/src/core/decoder.c
@@ -125,7 +125,9 @@ pb_decoder_decode(
       /* Iterate values of packed field */
       while (!error && pb_stream_offset(&stream) < offset + length)
         if (likely_(!(error = pb_stream_read(&stream, type, value))))
-          error = handler(descriptor, value, user);
+          error = likely_(pb_stream_offset(&stream) <= offset + length)
+            ? handler(descriptor, value, user)
+            : PB_ERROR_OFFSET;
 
     /* Read value of given type from stream */
     } else {
-- 
2.43.0


From 21a3c1cb13903611fbc12e4c6853fd1791486fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:04 +0000
Subject: [PATCH 22/30] Mark the decoder's loops for verification (expands to
 nothing without PB_VERIFY)

---
 src/core/common.h  | 15 +++++++++++++++
 src/core/decoder.c |  7 ++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/core/common.h b/src/core/common.h
index 00abc89..0190069 100644
--- a/src/core/common.h
+++ b/src/core/common.h
@@ -36,4 +36,19 @@
 #define   likely_(condition) __builtin_expect((condition), 1)
 #define unlikely_(condition) __builtin_expect((condition), 0)
 
+/* ----------------------------------------------------------------------------
+ * Verification hooks
+ * ------------------------------------------------------------------------- */
+
+/*
+ * Loop contracts and ghost statements, expanding to nothing unless the sources
+ * are compiled for verification, in which case they're provided by the harness.
+ */
+#ifdef PB_VERIFY
+  #include <pb_verify.h>
+#else
+  #define verify_loop_(name)
+  #define verify_step_(name, ...)
+#endif
+
 #endif /* PB_CORE_COMMON_H */
diff --git a/src/core/decoder.c b/src/core/decoder.c
index 63fa473..635fa75 100644
--- a/src/core/decoder.c
+++ b/src/core/decoder.c
@@ -90,7 +90,9 @@ pb_decoder_decode(
 
   /* Iterate tag-value pairs */
   pb_stream_t stream = pb_stream_create(decoder->buffer);
-  while (!error && pb_stream_left(&stream)) {
+  while (!error && pb_stream_left(&stream))
+  verify_loop_(decoder_fields) {
+    verify_step_(decoder_fields, &stream);
     pb_tag_t tag;
     if (unlikely_(error = pb_stream_read(&stream, PB_TYPE_UINT32, &tag)))
       break;
@@ -124,10 +126,13 @@ pb_decoder_decode(
 
       /* Iterate values of packed field */
       while (!error && pb_stream_offset(&stream) < offset + length)
+      verify_loop_(decoder_values) {
+        verify_step_(decoder_values, &stream);
         if (likely_(!(error = pb_stream_read(&stream, type, value))))
           error = likely_(pb_stream_offset(&stream) <= offset + length)
             ? handler(descriptor, value, user)
             : PB_ERROR_OFFSET;
+      }
 
     /* Read value of given type from stream */
     } else {
-- 
2.43.0


From aec7d5394c44607e8f1e323a9245ede51e080140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 23/30] Mark the encoder's loops for verification (expands to
 nothing without PB_VERIFY)

---
 src/core/encoder.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/encoder.c b/src/core/encoder.c
index 4041f45..cb19d59 100644
--- a/src/core/encoder.c
+++ b/src/core/encoder.c
@@ -209,7 +209,8 @@ encode_packed(
     length = size * item;
   } else {
     const uint8_t *temp = values;
-    for (size_t v = 0; v < size; v++) {
+    for (size_t v = 0; v < size; v++)
+    verify_loop_(encoder_length) {
       length += pb_varint_size(type, temp);
       temp   += item;
     }
@@ -232,7 +233,8 @@ encode_packed(
       memcpy(data, values, length);
     } else {
       const uint8_t *temp = values;
-      for (size_t v = 0; v < size; v++) {
+      for (size_t v = 0; v < size; v++)
+      verify_loop_(encoder_packed) {
 
 #ifndef NDEBUG
 
@@ -388,7 +390,9 @@ pb_encoder_encode(
 
     /* Encode values one-by-one */
     const uint8_t *temp = values;
-    for (size_t v = 0; !error && v < size; v++) {
+    for (size_t v = 0; !error && v < size; v++)
+    verify_loop_(encoder_values) {
+      verify_step_(encoder_values, v);
       assert(encoder != (void *)temp);
       error = encode(&(encoder->buffer), descriptor, temp);
       temp += type_size;
-- 
2.43.0


From 6ba83aaf1ae058c4def74ad33c97da20cf159154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 24/30] Mark the descriptor lookup loops for verification

Loop contract hooks, expanding to nothing unless PB_VERIFY is defined.
---
 src/core/descriptor.c | 12 +++++++++---
 src/util/descriptor.c |  6 ++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/core/descriptor.c b/src/core/descriptor.c
index 61f0c4e..57e7be5 100644
--- a/src/core/descriptor.c
+++ b/src/core/descriptor.c
@@ -118,7 +118,9 @@ extern const pb_field_descriptor_t *
 pb_descriptor_field_by_tag(
     const pb_descriptor_t *descriptor, pb_tag_t tag) {
   assert(descriptor && tag);
-  for (size_t f = min(tag, descriptor->field.size); f > 0; ) {
+  for (size_t f = min(tag, descriptor->field.size); f > 0; )
+  verify_loop_(descriptor_fields) {
+    verify_step_(descriptor_fields, descriptor, f);
     if (pb_field_descriptor_tag(
         &(descriptor->field.data[--f])) == tag) {
       return &(descriptor->field.data[f]);
@@ -147,7 +149,9 @@ extern void
 pb_descriptor_extend(
     pb_descriptor_t *descriptor, pb_descriptor_t *extension) {
   assert(descriptor && extension);
-  while (descriptor->extension) {
+  while (descriptor->extension)
+  verify_loop_(descriptor_extend) {
+    verify_step_(descriptor_extend, descriptor);
     if (descriptor->extension == extension)
       return;
     descriptor = descriptor->extension;
@@ -173,7 +177,9 @@ pb_enum_descriptor_value_by_number(
   assert(descriptor);
   if (descriptor->value.size) {
     size_t v = descriptor->value.size - 1;
-    do {
+    do
+    verify_loop_(enum_values) {
+      verify_step_(enum_values, descriptor, v);
       if (pb_enum_value_descriptor_number(
           &(descriptor->value.data[v])) == number) {
         return &(descriptor->value.data[v]);
diff --git a/src/util/descriptor.c b/src/util/descriptor.c
index aa4b314..d886d59 100644
--- a/src/util/descriptor.c
+++ b/src/util/descriptor.c
@@ -45,7 +45,8 @@ extern const pb_field_descriptor_t *
 pb_descriptor_field_by_name(
     const pb_descriptor_t *descriptor, const char name[]) {
   assert(descriptor && name);
-  for (size_t f = 0; f < descriptor->field.size; ++f) {
+  for (size_t f = 0; f < descriptor->field.size; ++f)
+  verify_loop_(descriptor_names) {
     if (strcmp(pb_field_descriptor_name(&(descriptor->field.data[f])), name))
       continue;
     return &(descriptor->field.data[f]);
@@ -71,7 +72,8 @@ extern const struct pb_enum_value_descriptor_t *
 pb_enum_descriptor_value_by_name(
     const pb_enum_descriptor_t *descriptor, const char name[]) {
   assert(descriptor && name);
-  for (size_t v = 0; v < descriptor->value.size; ++v) {
+  for (size_t v = 0; v < descriptor->value.size; ++v)
+  verify_loop_(enum_names) {
     if (strcmp(pb_enum_value_descriptor_name(
         &(descriptor->value.data[v])), name))
       continue;
-- 
2.43.0


From 98a81d78346e2f68373eabffbbad9d94acf56bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:23 +0000
Subject: [PATCH 25/30] fix: report a oneof member that could not be erased
 when putting another

---
 src/message/part.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/message/part.c b/src/message/part.c
index f4346be..37d363d 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -383,19 +383,20 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
 
         /* If the tag is part of a oneof ensure it is the active tag */
         if (pb_field_descriptor_label(descriptor) == PB_LABEL_ONEOF) {
+          pb_error_t error = PB_ERROR_NONE;
           temp = pb_cursor_copy(&cursor);
           do {
             int member = pb_field_descriptor_oneof(descriptor) ==
               pb_field_descriptor_oneof(pb_cursor_descriptor(&temp));
             if (member && tag != pb_cursor_tag(&temp))
-              if (pb_cursor_erase(&temp))
-                break;                                     /* LCOV_EXCL_LINE */
+              if ((error = pb_cursor_erase(&temp)))
+                break;
           } while (pb_cursor_next(&temp));
           pb_cursor_destroy(&temp);
 
           /* Ensure alignment of cursor and message */
           pb_cursor_align(&cursor);
-          if (pb_message_align(message))
+          if (error || pb_message_align(message))
             break;                                         /* LCOV_EXCL_LINE */
           start = pb_message_start(message);
         }
-- 
2.43.0


From bc800ffe77b6bbae9fcd8d7dd601f614a8ed0109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 26/30] fix: a handle to a packed value doesn't grow when
 another value is appended

---
 src/message/journal.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/message/journal.c b/src/message/journal.c
index 0923dc1..0942c1d 100644
--- a/src/message/journal.c
+++ b/src/message/journal.c
@@ -375,11 +375,15 @@ pb_journal_align(
 
       /* Change happened inside current part: resize */
       if (entry->origin >= offset->start) {
-        offset->end += entry->delta;
+        int packed = offset->diff.origin && !offset->diff.tag;
 
-        /* Current part is a packed field: invalidate */
-        if (offset->diff.origin && !offset->diff.tag &&
+        /* Values appended to a packed field don't belong to current part */
+        if (!packed || entry->origin < offset->end ||
             offset->start == offset->end)
+          offset->end += entry->delta;
+
+        /* Current part is a packed field: invalidate */
+        if (packed && offset->start == offset->end)
           invalid = 1;
 
       /* Current part was cleared: clear */
-- 
2.43.0


From 081073d38247097e75ec77ee85e3eb0454547061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 27/30] Mark the cursor's loop for verification

Loop contract hook, expanding to nothing unless PB_VERIFY is defined.
---
 src/message/cursor.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index 17fd3e3..7db7cdf 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -104,7 +104,9 @@ next(pb_cursor_t *cursor) {
 
   /* Create stream over temporary buffer */
   pb_stream_t stream = pb_stream_create_at(&buffer, offset->end);
-  while (pb_stream_left(&stream)) {
+  while (pb_stream_left(&stream))
+  verify_loop_(cursor_fields) {
+    verify_step_(cursor_fields, cursor, &stream);
 
     /* Adjust offsets */
     offset->start       = offset->end;
-- 
2.43.0


From 99f32a9ca79995eaaffc0f979c5f450c38a33979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:50 +0000
Subject: [PATCH 28/30] Mark sequence, branch and level loops for verification

Loop contract hooks, expanding to nothing unless PB_VERIFY is defined.
---
 src/message/cursor.c  | 12 ++++++++----
 src/message/message.c |  6 ++++--
 src/message/nested.c  |  3 ++-
 src/message/oneof.c   |  8 ++++++--
 src/message/part.c    | 12 +++++++++---
 5 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index 7db7cdf..a98146b 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -214,7 +214,8 @@ pb_cursor_create(pb_message_t *message, pb_tag_t tag) {
     /* If the field is non-repeated, move the cursor to the last occurrence */
     if (pb_field_descriptor_label(descriptor) != PB_LABEL_REPEATED) {
       pb_cursor_t temp = pb_cursor_copy(&cursor);
-      while (pb_cursor_next(&temp)) {
+      while (pb_cursor_next(&temp))
+      verify_loop_(cursor_last) {
         if (tag == pb_cursor_tag(&temp)) {
           pb_cursor_destroy(&cursor);
           cursor = pb_cursor_copy(&temp);
@@ -225,7 +226,8 @@ pb_cursor_create(pb_message_t *message, pb_tag_t tag) {
       /* If the tag is part of a oneof ensure it is the active tag */
       if (pb_field_descriptor_label(descriptor) == PB_LABEL_ONEOF) {
         pb_cursor_t temp = pb_cursor_copy(&cursor); temp.tag = 0;
-        while (pb_cursor_next(&temp)) {
+        while (pb_cursor_next(&temp))
+        verify_loop_(cursor_oneof) {
           int member = pb_field_descriptor_oneof(descriptor) ==
             pb_field_descriptor_oneof(temp.current.descriptor);
           if (member && (cursor.error = PB_ERROR_EOM))
@@ -331,7 +333,8 @@ pb_cursor_next(pb_cursor_t *cursor) {
   int result = 0;
   if (pb_cursor_valid(cursor)) {
     pb_cursor_align(cursor);
-    do {
+    do
+    verify_loop_(cursor_next) {
       result = cursor->current.packed.end
         ? next_packed(cursor)
         : next(cursor);
@@ -377,7 +380,8 @@ pb_cursor_seek(pb_cursor_t *cursor, const void *value) {
 
     /* Create field and seek for value */
     if (pb_field_descriptor_type(descriptor) != PB_TYPE_MESSAGE) {
-      while (!result && pb_cursor_next(cursor)) {
+      while (!result && pb_cursor_next(cursor))
+      verify_loop_(cursor_seek) {
         pb_field_t field = pb_field_create_from_cursor(cursor);
         result = pb_field_match(&field, value);
         pb_field_destroy(&field);
diff --git a/src/message/message.c b/src/message/message.c
index fd3a7d5..3fa2ef5 100644
--- a/src/message/message.c
+++ b/src/message/message.c
@@ -97,7 +97,8 @@ pb_message_create_nested(
   assert(message && tags && size);
   pb_message_t prev = pb_message_create_invalid(),
                this = pb_message_copy(message);
-  for (size_t t = 0; t < size && pb_message_valid(&this); ++t) {
+  for (size_t t = 0; t < size && pb_message_valid(&this); ++t)
+  verify_loop_(message_nested) {
     pb_message_destroy(&prev);
 
 #ifndef NDEBUG
@@ -379,7 +380,8 @@ pb_message_erase(pb_message_t *message, pb_tag_t tag) {
     /* Use cursor to omit field/message creation */
     pb_cursor_t cursor = pb_cursor_create_unsafe(message, tag);
     if (pb_cursor_valid(&cursor))
-      do {
+      do
+      verify_loop_(message_erase) {
         error = pb_cursor_erase(&cursor);
       } while (!error && pb_cursor_next(&cursor));
     if (!error && (error = pb_cursor_error(&cursor)))
diff --git a/src/message/nested.c b/src/message/nested.c
index 48d23f7..9615820 100644
--- a/src/message/nested.c
+++ b/src/message/nested.c
@@ -55,7 +55,8 @@ resolve(pb_message_t *message, const pb_tag_t tags[], size_t size) {
 
   /* Resolve message recursively */
   pb_message_t temp = pb_message_copy(message);
-  for (size_t t = 0; t < size; ++t) {
+  for (size_t t = 0; t < size; ++t)
+  verify_loop_(nested_resolve) {
     pb_cursor_destroy(&cursor);
 
 #ifndef NDEBUG
diff --git a/src/message/oneof.c b/src/message/oneof.c
index ed43417..4d206e9 100644
--- a/src/message/oneof.c
+++ b/src/message/oneof.c
@@ -73,7 +73,9 @@ pb_oneof_case(pb_oneof_t *oneof) {
   assert(oneof);
   pb_tag_t tag = 0;
   if (pb_cursor_rewind(&(oneof->cursor))) {
-    do {
+    do
+    verify_loop_(oneof_case) {
+      verify_step_(oneof_case, oneof);
       const pb_field_descriptor_t *descriptor =
         pb_cursor_descriptor(&(oneof->cursor));
       if (pb_field_descriptor_oneof(descriptor) == oneof->descriptor)
@@ -94,7 +96,9 @@ pb_oneof_clear(pb_oneof_t *oneof) {
   assert(oneof);
   pb_error_t error = PB_ERROR_NONE;
   if (pb_cursor_rewind(&(oneof->cursor))) {
-    do {
+    do
+    verify_loop_(oneof_clear) {
+      verify_step_(oneof_clear, oneof);
       const pb_field_descriptor_t *descriptor =
         pb_cursor_descriptor(&(oneof->cursor));
       if (pb_field_descriptor_oneof(descriptor) == oneof->descriptor)
diff --git a/src/message/part.c b/src/message/part.c
index 37d363d..6e3b5c3 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -121,7 +121,9 @@ adjust_recursive(pb_part_t *part, pb_stream_t *stream, ptrdiff_t *delta) {
   pb_error_t error = PB_ERROR_NONE;
 
   /* Read from the stream until the end of the part */
-  while (pb_stream_offset(stream) < part->offset.end) {
+  while (pb_stream_offset(stream) < part->offset.end)
+  verify_loop_(part_records) {
+    verify_step_(part_records, part, stream);
     if (pb_stream_offset(stream) == part->offset.start - *delta &&
         pb_part_empty(part))
       break;
@@ -364,7 +366,9 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
     pb_cursor_t cursor = pb_cursor_create_without_tag(message);
     pb_cursor_t temp   = pb_cursor_copy(&cursor);
     if (pb_cursor_valid(&temp)) {
-      do {
+      do
+      verify_loop_(part_place) {
+        verify_step_(part_place, &cursor, &temp);
         if (pb_cursor_tag(&temp) == tag ||
            (pb_cursor_tag(&temp) <  tag && pb_cursor_tag(&cursor) != tag)) {
           pb_cursor_destroy(&cursor);
@@ -385,7 +389,9 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
         if (pb_field_descriptor_label(descriptor) == PB_LABEL_ONEOF) {
           pb_error_t error = PB_ERROR_NONE;
           temp = pb_cursor_copy(&cursor);
-          do {
+          do
+          verify_loop_(part_oneof) {
+            verify_step_(part_oneof, &temp);
             int member = pb_field_descriptor_oneof(descriptor) ==
               pb_field_descriptor_oneof(pb_cursor_descriptor(&temp));
             if (member && tag != pb_cursor_tag(&temp))
-- 
2.43.0


From 5dbfdad06ee78958f3f3cfb4abf166e2842d6d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:28 +0000
Subject: [PATCH 29/30] Mark the validator's and the chunk allocator's loops
 for verification

Loop contract hooks, expanding to nothing unless PB_VERIFY is defined.
---
 src/core/common.h          |  1 +
 src/util/chunk_allocator.c | 13 +++++++++----
 src/util/validator.c       | 14 ++++++++++++--
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/core/common.h b/src/core/common.h
index 0190069..3ce3ba2 100644
--- a/src/core/common.h
+++ b/src/core/common.h
@@ -49,6 +49,7 @@
 #else
   #define verify_loop_(name)
   #define verify_step_(name, ...)
+  #define verify_head_(name, ...)
 #endif
 
 #endif /* PB_CORE_COMMON_H */
diff --git a/src/util/chunk_allocator.c b/src/util/chunk_allocator.c
index e63a6fb..b557bb9 100644
--- a/src/util/chunk_allocator.c
+++ b/src/util/chunk_allocator.c
@@ -94,7 +94,8 @@ allocator_allocate(void *data, size_t size) {
   /* Search to end of chunk list */
   pb_chunk_allocator_t *base = data;
   pb_chunk_allocator_t *head = data;
-  while (head->next)
+  while (verify_head_(chunk_last, &head) head->next)
+  verify_loop_(chunk_last)
     head = head->next;
 
   /* Calculate necessary capacity */
@@ -143,7 +144,8 @@ allocator_resize(void *data, void *block, size_t size) {
     if (unlikely_(size > current->capacity)) {
       pb_chunk_allocator_t *base = data;
       pb_chunk_allocator_t *head = data;
-      while (head->next && head->next != current)
+      while (verify_head_(chunk_before, &head) head->next && head->next != current)
+      verify_loop_(chunk_before)
         head = head->next;
 
       /* Calculate new capacity */
@@ -186,7 +188,8 @@ allocator_free(void *data, void *block) {
   /* Search current chunk in chunk list */
   pb_chunk_allocator_t *head    = data;
   pb_chunk_allocator_t *current = chunk_from_block(block);
-  while (head->next && head->next != current)
+  while (verify_head_(chunk_before, &head) head->next && head->next != current)
+  verify_loop_(chunk_before)
     head = head->next;
 
   /* Link predecessor and successor and free current chunk */
@@ -250,7 +253,9 @@ pb_chunk_allocator_destroy(pb_allocator_t *allocator) {
   pb_chunk_allocator_t *base = allocator->data;
   if (base) {
     pb_chunk_allocator_t *head;
-    while ((head = base->next) && base->next) {
+    while (verify_head_(chunk_destroy, base)
+      (head = base->next) && base->next)
+    verify_loop_(chunk_destroy) {
       base->next = base->next->next;
       free(head);
     }
diff --git a/src/util/validator.c b/src/util/validator.c
index 1f08156..d0ee660 100644
--- a/src/util/validator.c
+++ b/src/util/validator.c
@@ -67,8 +67,11 @@ handler(
   /* Count field occurrence */
   int miss = 1;
   for (size_t t = 0; miss && t < tags->size; ++t)
+  verify_loop_(validator_seen) {
+    verify_step_(validator_seen, t);
     if (tags->data[t] == pb_field_descriptor_tag(descriptor))
       miss = 0;
+  }
   if (miss)
     tags->data[tags->size++] = pb_field_descriptor_tag(descriptor);
 
@@ -96,7 +99,9 @@ check(const pb_decoder_t *decoder) {
   /* Determine field count including extensions */
   size_t size = 0;
   const pb_descriptor_t *current = pb_decoder_descriptor(decoder);
-  do {
+  do
+  verify_loop_(validator_size) {
+    verify_step_(validator_size, &current);
     size += pb_descriptor_size(current);
   } while ((current = pb_descriptor_extension(current)));
 
@@ -114,14 +119,19 @@ check(const pb_decoder_t *decoder) {
     pb_descriptor_iter_t it =
       pb_descriptor_iter_create(decoder->descriptor);
     if (pb_descriptor_iter_begin(&it)) {
-      do {
+      do
+      verify_loop_(validator_required) {
+        verify_step_(validator_required, &it, &tags);
         const pb_field_descriptor_t *descriptor =
           pb_descriptor_iter_current(&it);
         if (pb_field_descriptor_label(descriptor) == PB_LABEL_REQUIRED) {
           int miss = 1;
           for (size_t t = 0; miss && t < tags.size; ++t)
+          verify_loop_(validator_search) {
+            verify_step_(validator_search, tags.data[t]);
             if (tags.data[t] == pb_field_descriptor_tag(descriptor))
               miss = 0;
+          }
           if (miss)
             error = PB_ERROR_ABSENT;
         }
-- 
2.43.0


From 7bb4253cd77b265eeb4e8ad856984046ff36e35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:58 +0000
Subject: [PATCH 30/30] fix: a cursor whose field was erased stays unusable
 until it is advanced

---
 src/message/cursor.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index a98146b..8878acf 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -567,5 +567,12 @@ pb_cursor_align(pb_cursor_t *cursor) {
         &version, &(cursor->current.offset));
     }
   }
+
+  /* Once cleared, the current part is gone for good */
+  const pb_offset_t *offset = &(cursor->current.offset);
+  if (cursor->current.packed.end
+      ? offset->start >= offset->end
+      : !offset->diff.tag)
+    error = PB_ERROR_INVALID;
   return error;
 }
-- 
2.43.0

