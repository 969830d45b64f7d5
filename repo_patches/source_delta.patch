From 81fb931b6b8c0385f41f76b6f129c75907e60ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:44 +0000
Subject: [PATCH 01/24] fix: keep all string map entries when reserve shrinks
 the capacity

---
 src/string_map.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/string_map.c b/src/string_map.c
index 47688e0..7f1c563 100644
--- a/src/string_map.c
+++ b/src/string_map.c
@@ -180,6 +180,24 @@ rcutils_string_map_reserve(rcutils_string_map_t * string_map, size_t capacity)
       return RCUTILS_RET_BAD_ALLOC;
     }
 
+    // when shrinking, first move the entries into the slots which remain,
+    // size is known to be at most capacity here because of the recursive call above.
+    if (capacity < string_map->impl->capacity) {
+      key_value_pair_t * pairs = string_map->impl->key_value_pairs;
+      size_t free_index = 0;
+      for (size_t i = capacity; i < string_map->impl->capacity; ++i) {
+        if (NULL == pairs[i].key) {
+          continue;
+        }
+        while (NULL != pairs[free_index].key) {
+          ++free_index;
+        }
+        pairs[free_index] = pairs[i];
+        pairs[i].key = NULL;
+        pairs[i].value = NULL;
+      }
+    }
+
     // resize the keys and values, assigning the result only if it succeeds
     key_value_pair_t * new_key_value_pairs = allocator.reallocate(
       string_map->impl->key_value_pairs, capacity * sizeof(key_value_pair_t), allocator.state);
-- 
2.43.0


From b59ae9b03fe8a2b90d33e0ae61256647b58d68f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:44 +0000
Subject: [PATCH 02/24] fix: string map lookups by key length match only keys
 of that length

---
 src/string_map.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/string_map.c b/src/string_map.c
index 7f1c563..28b92ba 100644
--- a/src/string_map.c
+++ b/src/string_map.c
@@ -273,11 +273,8 @@ __get_index_of_key_if_exists(
     if (NULL == string_map_impl->key_value_pairs[i].key) {
       continue;
     }
-    size_t cmp_count = strlen(string_map_impl->key_value_pairs[i].key);
-    if (key_length > cmp_count) {
-      cmp_count = key_length;
-    }
-    if (strncmp(key, string_map_impl->key_value_pairs[i].key, cmp_count) == 0) {
+    const char * stored_key = string_map_impl->key_value_pairs[i].key;
+    if (strlen(stored_key) == key_length && strncmp(key, stored_key, key_length) == 0) {
       *index = i;
       return true;
     }
-- 
2.43.0


From 855c57b6318a8fe9f7ea410b145d25db88f52aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:44 +0000
Subject: [PATCH 03/24] fix: leave a char array as it was when resizing it
 fails

---
 src/char_array.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/char_array.c b/src/char_array.c
index 76743d1..4e354c3 100644
--- a/src/char_array.c
+++ b/src/char_array.c
@@ -102,20 +102,27 @@ rcutils_char_array_resize(rcutils_char_array_t * char_array, size_t new_size)
   size_t old_length = char_array->buffer_length;
 
   if (char_array->owns_buffer) {  // we own the buffer, we can do whatever we want
-    char * new_buf = rcutils_reallocf(char_array->buffer, new_size * sizeof(char), allocator);
+    char * new_buf = (char *)allocator->reallocate(
+      char_array->buffer, new_size * sizeof(char), allocator->state);
     RCUTILS_CHECK_FOR_NULL_WITH_MSG(
       new_buf,
       "failed to reallocate memory for char array",
       return RCUTILS_RET_BAD_ALLOC);
     char_array->buffer = new_buf;
   } else {  // we don't realloc memory we don't own. instead, we alloc some new space
-    rcutils_ret_t ret = rcutils_char_array_init(char_array, new_size, allocator);
-    if (ret != RCUTILS_RET_OK) {
-      return ret;
-    }
+    char * new_buf = (char *)allocator->allocate(new_size * sizeof(char), allocator->state);
+    RCUTILS_CHECK_FOR_NULL_WITH_MSG(
+      new_buf,
+      "failed to allocate memory for char array",
+      return RCUTILS_RET_BAD_ALLOC);
+    new_buf[0] = '\0';
     size_t n = MIN(new_size, old_size);
-    memcpy(char_array->buffer, old_buf, n);
-    char_array->buffer[n - 1] = '\0';  // always have an ending
+    if (n > 0lu) {
+      memcpy(new_buf, old_buf, n);
+      new_buf[n - 1] = '\0';  // always have an ending
+    }
+    char_array->buffer = new_buf;
+    char_array->owns_buffer = true;
   }
 
   char_array->buffer_capacity = new_size;
-- 
2.43.0


From 4a87510c4249fdef74cc0c417f63f807e4197d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:44 +0000
Subject: [PATCH 04/24] fix: keep the content of a uint8 array when resizing it
 fails

---
 src/uint8_array.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/uint8_array.c b/src/uint8_array.c
index 844d370..a13a667 100644
--- a/src/uint8_array.c
+++ b/src/uint8_array.c
@@ -83,15 +83,14 @@ rcutils_uint8_array_resize(rcutils_uint8_array_t * uint8_array, size_t new_size)
     return RCUTILS_RET_OK;
   }
 
-  uint8_array->buffer = rcutils_reallocf(
-    uint8_array->buffer, new_size * sizeof(uint8_t), allocator);
+  uint8_t * new_buffer = (uint8_t *)allocator->reallocate(
+    uint8_array->buffer, new_size * sizeof(uint8_t), allocator->state);
   RCUTILS_CHECK_FOR_NULL_WITH_MSG(
-    uint8_array->buffer,
+    new_buffer,
     "failed to reallocate memory for uint8 array",
-    uint8_array->buffer_capacity = 0lu;
-    uint8_array->buffer_length = 0lu;
     return RCUTILS_RET_BAD_ALLOC);
 
+  uint8_array->buffer = new_buffer;
   uint8_array->buffer_capacity = new_size;
   if (new_size < uint8_array->buffer_length) {
     uint8_array->buffer_length = new_size;
-- 
2.43.0


From 611ab3b941069d68c985246e113608b1c6056a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:44 +0000
Subject: [PATCH 05/24] fix: char array strncat stops at the end of the source
 string

---
 src/char_array.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/char_array.c b/src/char_array.c
index 4e354c3..0ea04b0 100644
--- a/src/char_array.c
+++ b/src/char_array.c
@@ -227,6 +227,11 @@ rcutils_char_array_strncat(rcutils_char_array_t * char_array, const char * src,
     // The buffer length always contains the trailing \0, so the strlen is one less than that.
     current_strlen = char_array->buffer_length - 1;
   }
+  // use at most n bytes of src, but never more than it has
+  const char * src_end = (const char *)memchr(src, '\0', n);
+  if (NULL != src_end) {
+    n = (size_t)(src_end - src);
+  }
   size_t new_length = current_strlen + n + 1;
   rcutils_ret_t ret = rcutils_char_array_expand_as_needed(char_array, new_length);
   if (ret != RCUTILS_RET_OK) {
-- 
2.43.0


From a8becc81b4e593fc15e93312427fb3c845039259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:44 +0000
Subject: [PATCH 06/24] fix: rcutils_cli_get_option matches whole options and
 accepts an empty range

---
 src/cmdline_parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cmdline_parser.c b/src/cmdline_parser.c
index 148c26f..d1e497b 100644
--- a/src/cmdline_parser.c
+++ b/src/cmdline_parser.c
@@ -32,13 +32,13 @@ char * rcutils_cli_get_option(char ** begin, char ** end, const char * option)
   size_t idx = 0;
   size_t end_idx = (size_t)(end - begin);
   for (; idx < end_idx; ++idx) {
-    if (strncmp(begin[idx], option, strlen(option)) == 0) {
+    if (strcmp(begin[idx], option) == 0) {
       break;
     }
   }
 
-  if (idx < end_idx - 1 && begin[idx++] != NULL) {
-    return begin[idx];
+  if (idx + 1 < end_idx) {
+    return begin[idx + 1];
   }
 
   return NULL;
-- 
2.43.0


From 3e8094ecbe6a41ff3f20d334e97b62ddd1a8a931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:42 +0000
Subject: [PATCH 07/24] fix: rcutils_split_last terminates an empty first token

---
 src/split.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/split.c b/src/split.c
index 98c4783..449518a 100644
--- a/src/split.c
+++ b/src/split.c
@@ -180,7 +180,8 @@ rcutils_split_last(
      * found_last is the index of the the last position the delimiter was found
      * and not the actual position in terms of counting from 1
      */
-    size_t inner_rhs_offset = (str[found_last - 1] == delimiter) ? 1 : 0;
+    size_t inner_rhs_offset =
+      (found_last > lhs_offset && str[found_last - 1] == delimiter) ? 1 : 0;
     string_array->data[0] = allocator.allocate(
       (found_last + 1 - lhs_offset - inner_rhs_offset + 1) * sizeof(char),
       allocator.state);
-- 
2.43.0


From efe004fb1e7dbf6bd1dc8ef18d0e6fc9856556cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:42 +0000
Subject: [PATCH 08/24] fix: zero pad the milliseconds of a date string

---
 src/time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time.c b/src/time.c
index 882c9d9..47be937 100644
--- a/src/time.c
+++ b/src/time.c
@@ -66,7 +66,7 @@ rcutils_time_point_value_as_date_string(
   // Make sure the buffer is large enough to hold the largest possible uint64_t
   char nanoseconds_str[21];
 
-  if (rcutils_snprintf(nanoseconds_str, sizeof(nanoseconds_str), "%" PRIu64, nanoseconds) < 0) {
+  if (rcutils_snprintf(nanoseconds_str, sizeof(nanoseconds_str), "%.9" PRIu64, nanoseconds) < 0) {
     RCUTILS_SET_ERROR_MSG("failed to format time point nanoseconds into string");
     return RCUTILS_RET_ERROR;
   }
-- 
2.43.0


From 00e1830e45851ac83b2136f282dab5f091832801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:42 +0000
Subject: [PATCH 09/24] fix: do not truncate long paths in rcutils_join_path

---
 src/filesystem.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filesystem.c b/src/filesystem.c
index 25c71d7..4328dab 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -182,8 +182,10 @@ rcutils_join_path(
     return NULL;
   }
 
-  return rcutils_format_string(
+  // the result must not be truncated, whatever the lengths of the two paths
+  return rcutils_format_string_limit(
     allocator,
+    strlen(left_hand_path) + strlen(RCUTILS_PATH_DELIMITER) + strlen(right_hand_path) + 1,
     "%s%s%s",
     left_hand_path, RCUTILS_PATH_DELIMITER, right_hand_path);
 }
-- 
2.43.0


From 188854fffde5ad1fc491ff8c983d3b2d9bcb0293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:42 +0000
Subject: [PATCH 10/24] fix: reject a hash map capacity whose storage size
 overflows

---
 src/hash_map.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hash_map.c b/src/hash_map.c
index 28748d6..0e1fbe0 100644
--- a/src/hash_map.c
+++ b/src/hash_map.c
@@ -17,6 +17,7 @@ extern "C"
 {
 #endif
 
+#include <stdint.h>
 #include <string.h>
 #include <stdio.h>
 
@@ -266,6 +267,10 @@ rcutils_hash_map_init(
   } else if (1 > data_size) {
     RCUTILS_SET_ERROR_MSG("data_size cannot be less than 1");
     return RCUTILS_RET_INVALID_ARGUMENT;
+  } else if (initial_capacity > SIZE_MAX / (2 * sizeof(rcutils_hash_map_impl_t))) {
+    // neither the rounding below nor the size of the storage may overflow
+    RCUTILS_SET_ERROR_MSG("initial_capacity is too large");
+    return RCUTILS_RET_INVALID_ARGUMENT;
   }
 
   // Due to an optimization we use during lookup, the capacity must be a power-of-two.
-- 
2.43.0


From 96a2acd9e8e2b85da134c1de17528b80ecc0a980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:42 +0000
Subject: [PATCH 11/24] fix: reject an array list capacity whose storage size
 overflows

---
 src/array_list.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/array_list.c b/src/array_list.c
index 8761cec..9278813 100644
--- a/src/array_list.c
+++ b/src/array_list.c
@@ -66,6 +66,9 @@ rcutils_array_list_init(
   } else if (1 > data_size) {
     RCUTILS_SET_ERROR_MSG("data_size cannot be less than 1");
     return RCUTILS_RET_INVALID_ARGUMENT;
+  } else if (initial_capacity > SIZE_MAX / data_size) {
+    RCUTILS_SET_ERROR_MSG("initial_capacity is too large");
+    return RCUTILS_RET_INVALID_ARGUMENT;
   }
 
   array_list->impl = allocator->allocate(sizeof(rcutils_array_list_impl_t), allocator->state);
-- 
2.43.0


From 2e9b208bc951a307429e5fc2335d39d0312df87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:42 +0000
Subject: [PATCH 12/24] fix: reject a string array size whose storage size
 overflows

---
 src/string_array.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/string_array.c b/src/string_array.c
index e279a37..f373714 100644
--- a/src/string_array.c
+++ b/src/string_array.c
@@ -154,6 +154,11 @@ rcutils_string_array_resize(
   RCUTILS_CHECK_ALLOCATOR_WITH_MSG(
     allocator, "allocator is invalid", return RCUTILS_RET_INVALID_ARGUMENT);
 
+  if (new_size > SIZE_MAX / sizeof(char *)) {
+    RCUTILS_SET_ERROR_MSG("requested size for string array too large");
+    return RCUTILS_RET_BAD_ALLOC;
+  }
+
   // Stash entries being removed
   rcutils_string_array_t to_reclaim = rcutils_get_zero_initialized_string_array();
   if (new_size < string_array->size) {
-- 
2.43.0


From 2ef8dab34701975c77c6627cdb58069cb5ce88b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:42 +0000
Subject: [PATCH 13/24] fix: rcutils_reallocf to size zero does not release
 memory twice

---
 src/allocator.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/allocator.c b/src/allocator.c
index d364bde..7dcf88b 100644
--- a/src/allocator.c
+++ b/src/allocator.c
@@ -110,7 +110,8 @@ rcutils_reallocf(void * pointer, size_t size, rcutils_allocator_t * allocator)
     return NULL;
   }
   void * new_pointer = allocator->reallocate(pointer, size, allocator->state);
-  if (NULL == new_pointer) {
+  // reallocating to a size of zero may release the memory itself, also when it returns NULL
+  if (NULL == new_pointer && 0 != size) {
     allocator->deallocate(pointer, allocator->state);
   }
   return new_pointer;
-- 
2.43.0


From ec71653b239a11dab3c8056eabec1573e37e34eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:42 +0000
Subject: [PATCH 14/24] fix: accept an empty listing when calculating a
 directory size

---
 src/filesystem.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/filesystem.c b/src/filesystem.c
index 4328dab..44b2624 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -388,12 +388,14 @@ rcutils_calculate_directory_size_with_recursion(
       goto fail;
     }
 
-    do {
+    // there is no entry at all in a directory which was removed meanwhile
+    while (NULL != iter->entry_name) {
       ret = check_and_calculate_size(iter->entry_name, size, max_depth, dir_list, allocator);
       if (RCUTILS_RET_OK != ret) {
         goto fail;
       }
-    } while (rcutils_dir_iter_next(iter));
+      rcutils_dir_iter_next(iter);
+    }
 
     rcutils_dir_iter_end(iter);
 
-- 
2.43.0


From 37752428fc4cf7a961d275ea232af8f95c35904e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:42 +0000
Subject: [PATCH 15/24] fix: do not follow symbolic links when calculating a
 directory size

---
 src/filesystem.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/filesystem.c b/src/filesystem.c
index 44b2624..b394609 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -310,6 +310,15 @@ static rcutils_ret_t check_and_calculate_size(
     return RCUTILS_RET_BAD_ALLOC;
   }
 
+#ifndef _WIN32
+  // Symbolic links are not followed
+  struct stat link_buffer;
+  if (lstat(file_path, &link_buffer) == 0 && S_ISLNK(link_buffer.st_mode)) {
+    allocator.deallocate(file_path, allocator.state);
+    return RCUTILS_RET_OK;
+  }
+#endif  // _WIN32
+
   if (rcutils_is_directory(file_path)) {
     if ((max_depth == 0) || ((dir_list->depth + 1) <= max_depth)) {
       // Add new directory to dir_list
-- 
2.43.0


From 38f3920b882665259fc3bcd862f9dcc38052d567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:51 +0000
Subject: [PATCH 16/24] fix: copy the whole logging format, unknown escapes
 included, and terminate it

---
 src/logging.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index 7aac274..112a6ea 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -473,10 +473,6 @@ static void create_format_string(
     back_slash_index = rcutils_findn(
       logging_output_format_string + i, RCUTILS_LOGGING_BACKSLASH_CHAR, length - i);
     if (back_slash_index == SIZE_MAX) {
-      memcpy(
-        g_rcutils_logging_output_format_string + dest_buffer_index,
-        logging_output_format_string + start_offset - start_offset_previous_not_copy,
-        length - start_offset + start_offset_previous_not_copy);
       break;
     } else {
       const char * expected_char = NULL;
@@ -505,9 +501,9 @@ static void create_format_string(
       }
 
       if (expected_char) {
-        if (back_slash_index > 0) {
+        size_t len = back_slash_index + start_offset_previous_not_copy;
+        if (len > 0) {
           // copy previous buffer first
-          size_t len = back_slash_index + start_offset_previous_not_copy;
           memcpy(
             g_rcutils_logging_output_format_string + dest_buffer_index,
             logging_output_format_string + start_offset,
@@ -528,6 +524,16 @@ static void create_format_string(
       i += (back_slash_index + 2 + skip_chars);
     }
   }
+
+  if (start_offset < length) {
+    // copy what follows the last decoded escape sequence
+    memcpy(
+      g_rcutils_logging_output_format_string + dest_buffer_index,
+      logging_output_format_string + start_offset,
+      length - start_offset);
+    dest_buffer_index += length - start_offset;
+  }
+  g_rcutils_logging_output_format_string[dest_buffer_index] = '\0';
 }
 
 static bool add_handler(token_handler handler, size_t start_offset, size_t end_offset)
-- 
2.43.0


From fe8b1b6f0b0137e6968a233107b76b145673eb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:51 +0000
Subject: [PATCH 17/24] fix: release the copied logger name when its level
 cannot be stored

---
 src/logging.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/logging.c b/src/logging.c
index 112a6ea..19f994c 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -920,6 +920,10 @@ static rcutils_ret_t add_key_to_hash_map(const char * name, int level, bool set_
   rcutils_ret_t hash_map_ret =
     rcutils_hash_map_set(&g_rcutils_logging_severities_map, &copy_name, &level);
   if (hash_map_ret != RCUTILS_RET_OK) {
+    if (!already_exists) {
+      g_rcutils_logging_allocator.deallocate(
+        (char *)copy_name, g_rcutils_logging_allocator.state);
+    }
     RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(
       "Error setting severity level for logger named '%s': %s",
       name, rcutils_get_error_string().str);
-- 
2.43.0


From 9310f4ed93519001a639adecfbe8fedeb28a1d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:51 +0000
Subject: [PATCH 18/24] fix: keep the level of a logger when setting it again
 fails

---
 src/logging.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index 19f994c..bd1e939 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -1132,16 +1132,12 @@ rcutils_ret_t rcutils_logging_set_logger_level(const char * name, int level)
       char * previous_key = key;
       bool free_current_key = false;
       if (key != NULL && strncmp(name, key, name_length) == 0) {
-        // If this is the key we are replacing, unconditionally remove it from the hash map;
-        // we'll be adding it back as a user-set level anyway
-        if (key[name_length] == '\0') {
+        // The key we are replacing stays in the hash map, setting it again below only updates its
+        // level and thus cannot fail.
+        // A descendant is removed from the hash map if we cached it
+        // (the user didn't explicitly set it).
+        if (key[name_length] != '\0' && !(tmp_level & 0x1)) {
           free_current_key = true;
-        } else {
-          // Otherwise, this is a descendant; only remove it from the hash map
-          // if we cached it (the user didn't explicitly set it).
-          if (!(tmp_level & 0x1)) {
-            free_current_key = true;
-          }
         }
       }
 
-- 
2.43.0


From 3ac4952f77264e63ed2c23bf090b6128665bcc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:51 +0000
Subject: [PATCH 19/24] fix: do not keep a stale level for the empty logger
 name

---
 src/logging.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index bd1e939..56c83af 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -1117,6 +1117,12 @@ rcutils_ret_t rcutils_logging_set_logger_level(const char * name, int level)
 
   size_t name_length = strlen(name);
 
+  if (name_length == 0) {
+    // An empty name denotes the default logger level, which is not kept in the map
+    g_rcutils_logging_default_logger_level = level;
+    return RCUTILS_RET_OK;
+  }
+
   if (rcutils_hash_map_key_exists(&g_rcutils_logging_severities_map, &name)) {
     // Iterate over the entire contents of the severities map, looking for entries that start with
     // this key name.  For any ones that match, check whether the user explicitly set them.  If the
@@ -1179,11 +1185,6 @@ rcutils_ret_t rcutils_logging_set_logger_level(const char * name, int level)
       name, rcutils_get_error_string().str);
   }
 
-  if (name_length == 0) {
-    // If the name was empty, this also means we should update the default logger level
-    g_rcutils_logging_default_logger_level = level;
-  }
-
   return add_key_ret;
 }
 
-- 
2.43.0


From d52d218754f89ca4cb82055ad5dcbc5b1d21536d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:02 +0000
Subject: [PATCH 20/24] fix: rcutils_get_executable_name does not overflow for
 an empty program name

---
 src/process.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/process.c b/src/process.c
index b93ed9f..6541216 100644
--- a/src/process.c
+++ b/src/process.c
@@ -79,7 +79,8 @@ char * rcutils_get_executable_name(rcutils_allocator_t allocator)
 
   // Since the above memory may be static, and the caller may want to modify
   // the argument, make and return a copy here.
-  char * executable_name = allocator.allocate(applen + 1, allocator.state);
+  // One extra character is needed because the base name of an empty name is "."
+  char * executable_name = allocator.allocate(applen + 2, allocator.state);
   if (NULL == executable_name) {
     return NULL;
   }
-- 
2.43.0


From e57a55a29b0ac4beb4bdbd24de4d2e71ab8e975b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:08 +0000
Subject: [PATCH 21/24] fix: rcutils_repl_str of an empty string terminates

---
 src/repl_str.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/repl_str.c b/src/repl_str.c
index 8d1de21..e50e62b 100644
--- a/src/repl_str.c
+++ b/src/repl_str.c
@@ -71,8 +71,8 @@ rcutils_repl_str(
   size_t cache_sz = 0;
   size_t cpylen, orglen, retlen, tolen, fromlen = strlen(from);
 
-  /* Find all matches and cache their positions. */
-  while ((pstr2 = strstr(pstr, from)) != NULL) {
+  /* Find all matches and cache their positions, there are none of an empty string. */
+  while (fromlen > 0 && (pstr2 = strstr(pstr, from)) != NULL) {
     count++;
 
     /* Increase the cache size when necessary. */
-- 
2.43.0


From f5147e60a81f6d8df212c757ec785d48eeae5fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:32 +0000
Subject: [PATCH 22/24] fix: truncate a date string to the buffer given

---
 src/time.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/time.c b/src/time.c
index 47be937..d7492cb 100644
--- a/src/time.c
+++ b/src/time.c
@@ -85,15 +85,12 @@ rcutils_time_point_value_as_date_string(
   }
 #endif
 
-  if (str_size < 32 || strftime(str, 32, "%Y-%m-%d %H:%M:%S", &ptm) == 0) {
+  char date_str[32];
+  if (strftime(date_str, sizeof(date_str), "%Y-%m-%d %H:%M:%S", &ptm) == 0) {
     RCUTILS_SET_ERROR_MSG("failed to format time point into string as iso8601_date");
     return RCUTILS_RET_ERROR;
   }
-  static const int date_end_position = 19;
-  if (rcutils_snprintf(
-      &str[date_end_position], str_size - date_end_position, ".%.3s",
-      nanoseconds_str) < 0)
-  {
+  if (rcutils_snprintf(str, str_size, "%s.%.3s", date_str, nanoseconds_str) < 0) {
     RCUTILS_SET_ERROR_MSG("failed to format time point into string as date_time_with_ms");
     return RCUTILS_RET_ERROR;
   }
-- 
2.43.0


From ab8425aefc1be60b8b5de2e4a115bd5e3ae85c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:32 +0000
Subject: [PATCH 23/24] fix: refuse to set a variable with an invalid name
 without overwriting

---
 src/env.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/env.c b/src/env.c
index 3fdeab8..ad8d3af 100644
--- a/src/env.c
+++ b/src/env.c
@@ -20,6 +20,7 @@ extern "C"
 #include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include "rcutils/env.h"
 #include "rcutils/error_handling.h"
@@ -38,7 +39,8 @@ rcutils_set_env_overwrite(const char * env_name, const char * env_value, bool ov
   RCUTILS_CHECK_FOR_NULL_WITH_MSG(
     env_name, "env_name is null", return false);
 
-  if ((int)overwrite == 0 && getenv(env_name) != NULL) {
+  // a name with '=' is invalid, getenv() would look into the value of another variable
+  if ((int)overwrite == 0 && strchr(env_name, '=') == NULL && getenv(env_name) != NULL) {
     return true;
   }
 
-- 
2.43.0


From 77e39488f41b0c912fb108ec19efee2dde42f24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:42 +0000
Subject: [PATCH 24/24] fix: recognise severity names in every locale

---
 src/logging.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index 56c83af..c712b96 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -12,7 +12,6 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-#include <ctype.h>
 #include <errno.h>
 #include <inttypes.h>
 #include <stdint.h>
@@ -830,13 +829,16 @@ rcutils_logging_severity_level_from_string(
   rcutils_ret_t ret = RCUTILS_RET_LOGGING_SEVERITY_STRING_INVALID;
 
   // Convert the input string to upper case (for case insensitivity).
+  // toupper() would depend on the locale: it does not map 'i' to 'I' in all of them.
   char * severity_string_upper = rcutils_strdup(severity_string, allocator);
   if (NULL == severity_string_upper) {
     RCUTILS_SET_ERROR_MSG("failed to allocate memory for uppercase string");
     return RCUTILS_RET_BAD_ALLOC;
   }
   for (int i = 0; severity_string_upper[i]; ++i) {
-    severity_string_upper[i] = (char)toupper(severity_string_upper[i]);
+    if (severity_string_upper[i] >= 'a' && severity_string_upper[i] <= 'z') {
+      severity_string_upper[i] = (char)(severity_string_upper[i] - 'a' + 'A');
+    }
   }
 
   // Determine the severity value matching the severity name.
-- 
2.43.0

