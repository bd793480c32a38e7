From f2ca56e499e9c7556010cde1e470c2d95fc346d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:55 +0000
Subject: [PATCH 01/34] fix: zero-pad nanoseconds in date string so that
 milliseconds are correct

---
 src/time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time.c b/src/time.c
index 882c9d9..8dc5c93 100644
--- a/src/time.c
+++ b/src/time.c
@@ -66,7 +66,7 @@ rcutils_time_point_value_as_date_string(
   // Make sure the buffer is large enough to hold the largest possible uint64_t
   char nanoseconds_str[21];
 
-  if (rcutils_snprintf(nanoseconds_str, sizeof(nanoseconds_str), "%" PRIu64, nanoseconds) < 0) {
+  if (rcutils_snprintf(nanoseconds_str, sizeof(nanoseconds_str), "%09" PRIu64, nanoseconds) < 0) {
     RCUTILS_SET_ERROR_MSG("failed to format time point nanoseconds into string");
     return RCUTILS_RET_ERROR;
   }
-- 
2.43.0


From 9eb85444ba60d54d65abba868ae5bf0f0923b398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:55 +0000
Subject: [PATCH 02/34] fix: avoid signed overflow for the smallest time point

---
 src/time.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/time.c b/src/time.c
index 8dc5c93..6ecb461 100644
--- a/src/time.c
+++ b/src/time.c
@@ -59,7 +59,9 @@ rcutils_time_point_value_as_date_string(
   }
   // best to abs it to avoid issues with negative values in C89, see:
   //   https://stackoverflow.com/a/3604984/671658
-  uint64_t abs_time_point = (uint64_t)llabs(*time_point);
+  // (negate as unsigned, because the magnitude of INT64_MIN does not fit into a signed type)
+  uint64_t abs_time_point =
+    *time_point < 0 ? 0u - (uint64_t)*time_point : (uint64_t)*time_point;
   // break into two parts to avoid floating point error
   uint64_t seconds = abs_time_point / (1000u * 1000u * 1000u);
   uint64_t nanoseconds = abs_time_point % (1000u * 1000u * 1000u);
@@ -114,7 +116,9 @@ rcutils_time_point_value_as_seconds_string(
   }
   // best to abs it to avoid issues with negative values in C89, see:
   //   https://stackoverflow.com/a/3604984/671658
-  uint64_t abs_time_point = (uint64_t)llabs(*time_point);
+  // (negate as unsigned, because the magnitude of INT64_MIN does not fit into a signed type)
+  uint64_t abs_time_point =
+    *time_point < 0 ? 0u - (uint64_t)*time_point : (uint64_t)*time_point;
   // break into two parts to avoid floating point error
   uint64_t seconds = abs_time_point / (1000u * 1000u * 1000u);
   uint64_t nanoseconds = abs_time_point % (1000u * 1000u * 1000u);
-- 
2.43.0


From a16932ef4292e24b99c00a8369b63efbf1482c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:55 +0000
Subject: [PATCH 03/34] fix: truncate the date string to small buffers as
 documented instead of failing

---
 src/time.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/time.c b/src/time.c
index 6ecb461..136c29e 100644
--- a/src/time.c
+++ b/src/time.c
@@ -87,15 +87,12 @@ rcutils_time_point_value_as_date_string(
   }
 #endif
 
-  if (str_size < 32 || strftime(str, 32, "%Y-%m-%d %H:%M:%S", &ptm) == 0) {
+  char date_str[32];
+  if (strftime(date_str, sizeof(date_str), "%Y-%m-%d %H:%M:%S", &ptm) == 0) {
     RCUTILS_SET_ERROR_MSG("failed to format time point into string as iso8601_date");
     return RCUTILS_RET_ERROR;
   }
-  static const int date_end_position = 19;
-  if (rcutils_snprintf(
-      &str[date_end_position], str_size - date_end_position, ".%.3s",
-      nanoseconds_str) < 0)
-  {
+  if (rcutils_snprintf(str, str_size, "%s.%.3s", date_str, nanoseconds_str) < 0) {
     RCUTILS_SET_ERROR_MSG("failed to format time point into string as date_time_with_ms");
     return RCUTILS_RET_ERROR;
   }
-- 
2.43.0


From 605083f787f8d49901295f2e1202fea0bbdbcfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:48 +0000
Subject: [PATCH 04/34] fix: do not keep the freed buffer when resizing a char
 array fails

---
 src/char_array.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/char_array.c b/src/char_array.c
index 76743d1..b25146f 100644
--- a/src/char_array.c
+++ b/src/char_array.c
@@ -106,6 +106,10 @@ rcutils_char_array_resize(rcutils_char_array_t * char_array, size_t new_size)
     RCUTILS_CHECK_FOR_NULL_WITH_MSG(
       new_buf,
       "failed to reallocate memory for char array",
+      // rcutils_reallocf() has freed the old buffer
+      char_array->buffer = NULL;
+      char_array->buffer_capacity = 0lu;
+      char_array->buffer_length = 0lu;
       return RCUTILS_RET_BAD_ALLOC);
     char_array->buffer = new_buf;
   } else {  // we don't realloc memory we don't own. instead, we alloc some new space
-- 
2.43.0


From 0c71831afd33f8aa0f41a150a477661dcac2bc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:48 +0000
Subject: [PATCH 05/34] fix: resizing an empty char array that does not own a
 buffer wrote before the new buffer

---
 src/char_array.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/char_array.c b/src/char_array.c
index b25146f..9fc9ee8 100644
--- a/src/char_array.c
+++ b/src/char_array.c
@@ -118,8 +118,10 @@ rcutils_char_array_resize(rcutils_char_array_t * char_array, size_t new_size)
       return ret;
     }
     size_t n = MIN(new_size, old_size);
-    memcpy(char_array->buffer, old_buf, n);
-    char_array->buffer[n - 1] = '\0';  // always have an ending
+    if (n > 0lu) {
+      memcpy(char_array->buffer, old_buf, n);
+      char_array->buffer[n - 1] = '\0';  // always have an ending
+    }
   }
 
   char_array->buffer_capacity = new_size;
-- 
2.43.0


From 9519de3ddd9cc44ba681fb2ca9d485e3ee1bb3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:48 +0000
Subject: [PATCH 06/34] fix: appending to a char array read past the end of a
 source shorter than n

---
 src/char_array.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/char_array.c b/src/char_array.c
index 9fc9ee8..e7b64c2 100644
--- a/src/char_array.c
+++ b/src/char_array.c
@@ -219,6 +219,11 @@ rcutils_char_array_strcpy(rcutils_char_array_t * char_array, const char * src)
 rcutils_ret_t
 rcutils_char_array_strncat(rcutils_char_array_t * char_array, const char * src, size_t n)
 {
+  // Use at most n bytes from src, like strncat(): it may end before that.
+  const char * src_end = memchr(src, '\0', n);
+  if (NULL != src_end) {
+    n = (size_t)(src_end - src);
+  }
   size_t current_strlen;
   if (char_array->buffer_length == 0) {
     current_strlen = 0;
-- 
2.43.0


From 8b10420b6bfe9e0f7cbd2f2258057ac1f1028ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:13 +0000
Subject: [PATCH 07/34] fix: reject array list sizes that overflow

---
 src/array_list.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/array_list.c b/src/array_list.c
index 8761cec..0f9aeeb 100644
--- a/src/array_list.c
+++ b/src/array_list.c
@@ -66,6 +66,9 @@ rcutils_array_list_init(
   } else if (1 > data_size) {
     RCUTILS_SET_ERROR_MSG("data_size cannot be less than 1");
     return RCUTILS_RET_INVALID_ARGUMENT;
+  } else if (initial_capacity > SIZE_MAX / data_size) {
+    RCUTILS_SET_ERROR_MSG("array list data is too large to be allocated");
+    return RCUTILS_RET_BAD_ALLOC;
   }
 
   array_list->impl = allocator->allocate(sizeof(rcutils_array_list_impl_t), allocator->state);
-- 
2.43.0


From 60eb053b8c0dd444ff25dd89d553a03481cc29af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:07 +0000
Subject: [PATCH 08/34] fix: getting an option from an empty argument range
 read past its end

---
 src/cmdline_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmdline_parser.c b/src/cmdline_parser.c
index 148c26f..d5abda6 100644
--- a/src/cmdline_parser.c
+++ b/src/cmdline_parser.c
@@ -37,7 +37,7 @@ char * rcutils_cli_get_option(char ** begin, char ** end, const char * option)
     }
   }
 
-  if (idx < end_idx - 1 && begin[idx++] != NULL) {
+  if (idx + 1 < end_idx && begin[idx++] != NULL) {
     return begin[idx];
   }
 
-- 
2.43.0


From baddafe444b32f7b52b306a1cac2c2490d97e8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:07 +0000
Subject: [PATCH 09/34] fix: getting an option returned the value of a longer
 option starting with the same text

---
 src/cmdline_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmdline_parser.c b/src/cmdline_parser.c
index d5abda6..bb769c6 100644
--- a/src/cmdline_parser.c
+++ b/src/cmdline_parser.c
@@ -32,7 +32,7 @@ char * rcutils_cli_get_option(char ** begin, char ** end, const char * option)
   size_t idx = 0;
   size_t end_idx = (size_t)(end - begin);
   for (; idx < end_idx; ++idx) {
-    if (strncmp(begin[idx], option, strlen(option)) == 0) {
+    if (strcmp(begin[idx], option) == 0) {
       break;
     }
   }
-- 
2.43.0


From e188b24a4a27bdcde7c8520b14ded6252dd66fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:35 +0000
Subject: [PATCH 10/34] fix: rcutils_strerror wrote before a buffer of length
 zero

---
 src/strerror.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/strerror.c b/src/strerror.c
index a425010..b7e805f 100644
--- a/src/strerror.c
+++ b/src/strerror.c
@@ -25,6 +25,10 @@ extern "C"
 void
 rcutils_strerror(char * buffer, size_t buffer_length)
 {
+  if (0 == buffer_length) {
+    // There is not even room for the terminator.
+    return;
+  }
 #if defined(_WIN32)
   strerror_s(buffer, buffer_length, errno);
 #elif defined(_GNU_SOURCE) && (!defined(ANDROID) || __ANDROID_API__ >= 23) && !defined(__QNXNTO__)
-- 
2.43.0


From 0017ad7d1bfcb2b16ac7442249a86b134b2b2d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:35 +0000
Subject: [PATCH 11/34] fix: heap overflow getting the executable name when the
 invocation name is empty

---
 src/process.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/process.c b/src/process.c
index b93ed9f..8525c07 100644
--- a/src/process.c
+++ b/src/process.c
@@ -79,7 +79,8 @@ char * rcutils_get_executable_name(rcutils_allocator_t allocator)
 
   // Since the above memory may be static, and the caller may want to modify
   // the argument, make and return a copy here.
-  char * executable_name = allocator.allocate(applen + 1, allocator.state);
+  // The base name of an empty name is ".", which is longer than the name itself.
+  char * executable_name = allocator.allocate(applen + 2, allocator.state);
   if (NULL == executable_name) {
     return NULL;
   }
-- 
2.43.0


From 5eeaedc875858ad53bef5c0f034953493ae1aaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:10 +0000
Subject: [PATCH 12/34] fix: reject string array sizes that overflow

---
 src/string_array.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/string_array.c b/src/string_array.c
index e279a37..ffe9a43 100644
--- a/src/string_array.c
+++ b/src/string_array.c
@@ -17,6 +17,7 @@ extern "C"
 {
 #endif
 
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -154,6 +155,11 @@ rcutils_string_array_resize(
   RCUTILS_CHECK_ALLOCATOR_WITH_MSG(
     allocator, "allocator is invalid", return RCUTILS_RET_INVALID_ARGUMENT);
 
+  if (new_size > SIZE_MAX / sizeof(char *)) {
+    RCUTILS_SET_ERROR_MSG("failed to allocate string array");
+    return RCUTILS_RET_BAD_ALLOC;
+  }
+
   // Stash entries being removed
   rcutils_string_array_t to_reclaim = rcutils_get_zero_initialized_string_array();
   if (new_size < string_array->size) {
-- 
2.43.0


From d4508c3fd09e18d38c1814dcb5241083a0676767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:10 +0000
Subject: [PATCH 13/34] fix: refuse an invalid allocator when initializing a
 string array

---
 src/string_array.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/string_array.c b/src/string_array.c
index ffe9a43..b24555c 100644
--- a/src/string_array.c
+++ b/src/string_array.c
@@ -50,6 +50,10 @@ rcutils_string_array_init(
     RCUTILS_SET_ERROR_MSG("string_array is null");
     return RCUTILS_RET_INVALID_ARGUMENT;
   }
+  if (!rcutils_allocator_is_valid(allocator)) {
+    RCUTILS_SET_ERROR_MSG("allocator is invalid");
+    return RCUTILS_RET_INVALID_ARGUMENT;
+  }
   string_array->size = size;
   string_array->data = allocator->zero_allocate(size, sizeof(char *), allocator->state);
   if (NULL == string_array->data && 0 != size) {
-- 
2.43.0


From 25262c2d5ced250bd591eaf133077358f6e16218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:57 +0000
Subject: [PATCH 14/34] fix: splitting at the second of two leading delimiters
 left the first token unterminated

---
 src/split.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/split.c b/src/split.c
index 98c4783..449518a 100644
--- a/src/split.c
+++ b/src/split.c
@@ -180,7 +180,8 @@ rcutils_split_last(
      * found_last is the index of the the last position the delimiter was found
      * and not the actual position in terms of counting from 1
      */
-    size_t inner_rhs_offset = (str[found_last - 1] == delimiter) ? 1 : 0;
+    size_t inner_rhs_offset =
+      (found_last > lhs_offset && str[found_last - 1] == delimiter) ? 1 : 0;
     string_array->data[0] = allocator.allocate(
       (found_last + 1 - lhs_offset - inner_rhs_offset + 1) * sizeof(char),
       allocator.state);
-- 
2.43.0


From 9ae2df1a5b1e01cb6b2d8450671085b92fa9a2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:57 +0000
Subject: [PATCH 15/34] fix: splitting on the last delimiter kept a trailing
 delimiter in a single token

---
 src/split.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/split.c b/src/split.c
index 449518a..48be55e 100644
--- a/src/split.c
+++ b/src/split.c
@@ -161,13 +161,16 @@ rcutils_split_last(
       result_error = ret;
       goto fail;
     }
+    // neither the leading nor the trailing delimiter is part of the token
+    size_t token_size = string_size > lhs_offset + rhs_offset ?
+      string_size - lhs_offset - rhs_offset : 0;
     string_array->data[0] =
-      allocator.allocate((found_last - lhs_offset + 2) * sizeof(char), allocator.state);
+      allocator.allocate((token_size + 1) * sizeof(char), allocator.state);
     if (NULL == string_array->data[0]) {
       result_error = RCUTILS_RET_BAD_ALLOC;
       goto fail;
     }
-    snprintf(string_array->data[0], found_last - lhs_offset + 1, "%s", str + lhs_offset);
+    snprintf(string_array->data[0], token_size + 1, "%s", str + lhs_offset);
   } else {
     rcutils_ret_t ret = rcutils_string_array_init(string_array, 2, &allocator);
     if (ret != RCUTILS_RET_OK) {
-- 
2.43.0


From 8f4f421cbe0b1355c8d4553702a89729ef407b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 16/34] fix: splitting with an invalid allocator or into a null
 array crashed

---
 src/split.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/split.c b/src/split.c
index 48be55e..1da6f8b 100644
--- a/src/split.c
+++ b/src/split.c
@@ -42,6 +42,8 @@ rcutils_split(
     *string_array = rcutils_get_zero_initialized_string_array();
     return RCUTILS_RET_OK;
   }
+  RCUTILS_CHECK_ALLOCATOR_WITH_MSG(
+    &allocator, "allocator is invalid", return RCUTILS_RET_INVALID_ARGUMENT);
 
   size_t string_size = strlen(str);
 
@@ -128,10 +130,16 @@ rcutils_split_last(
   rcutils_allocator_t allocator,
   rcutils_string_array_t * string_array)
 {
+  if (NULL == string_array) {
+    RCUTILS_SET_ERROR_MSG("string_array is null");
+    return RCUTILS_RET_INVALID_ARGUMENT;
+  }
   if (NULL == str || strlen(str) == 0) {
     *string_array = rcutils_get_zero_initialized_string_array();
     return RCUTILS_RET_OK;
   }
+  RCUTILS_CHECK_ALLOCATOR_WITH_MSG(
+    &allocator, "allocator is invalid", return RCUTILS_RET_INVALID_ARGUMENT);
 
   size_t string_size = strlen(str);
 
-- 
2.43.0


From 165a6f7cffce3a0cb2df8b83d3c9e8146e21a85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 17/34] fix: an old dynamic loader error made getting an
 existing symbol fail

---
 src/shared_library.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shared_library.c b/src/shared_library.c
index 077478f..c8ae0c5 100644
--- a/src/shared_library.c
+++ b/src/shared_library.c
@@ -203,6 +203,7 @@ rcutils_get_symbol(const rcutils_shared_library_t * lib, const char * symbol_nam
   }
 
 #ifndef _WIN32
+  dlerror(); /* Clear any existing error */
   void * lib_symbol = dlsym(lib->lib_pointer, symbol_name);
   char * error = dlerror();
   if (error != NULL) {
-- 
2.43.0


From 021761adb521e611e4456b1bc7040c8d4caf6e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 18/34] fix: null dereference asking whether a null shared
 library is loaded

---
 src/shared_library.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared_library.c b/src/shared_library.c
index c8ae0c5..48a39d3 100644
--- a/src/shared_library.c
+++ b/src/shared_library.c
@@ -355,7 +355,7 @@ rcutils_get_platform_library_name(
 bool
 rcutils_is_shared_library_loaded(rcutils_shared_library_t * lib)
 {
-  return lib->lib_pointer != NULL;
+  return lib != NULL && lib->lib_pointer != NULL;
 }
 
 #ifdef __cplusplus
-- 
2.43.0


From b644e6a640200354a2e92aeffc41a62c993cf9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:43 +0000
Subject: [PATCH 19/34] fix: hash map capacities whose storage size overflows
 were accepted

---
 src/hash_map.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hash_map.c b/src/hash_map.c
index 28748d6..841c365 100644
--- a/src/hash_map.c
+++ b/src/hash_map.c
@@ -86,6 +86,10 @@ static rcutils_ret_t hash_map_allocate_new_map(
   rcutils_array_list_t ** map, size_t capacity,
   const rcutils_allocator_t * allocator)
 {
+  if (capacity > SIZE_MAX / sizeof(rcutils_hash_map_impl_t)) {
+    *map = NULL;
+    return RCUTILS_RET_BAD_ALLOC;
+  }
   *map = allocator->allocate(capacity * sizeof(rcutils_hash_map_impl_t), allocator->state);
   if (NULL == *map) {
     return RCUTILS_RET_BAD_ALLOC;
-- 
2.43.0


From b3b2128ad84f6cbd305e5fd7ac49c0578dafafb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:43 +0000
Subject: [PATCH 20/34] fix: rounding up a huge hash map capacity wrapped
 around to one

---
 src/hash_map.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hash_map.c b/src/hash_map.c
index 841c365..c75641c 100644
--- a/src/hash_map.c
+++ b/src/hash_map.c
@@ -275,6 +275,10 @@ rcutils_hash_map_init(
   // Due to an optimization we use during lookup, the capacity must be a power-of-two.
   // If the user passed us something that is not power-of-two, round up to the next power-of-two
   if ((initial_capacity & (initial_capacity - 1)) != 0) {
+    if (initial_capacity > SIZE_MAX / 2) {
+      RCUTILS_SET_ERROR_MSG("initial_capacity is too large");
+      return RCUTILS_RET_BAD_ALLOC;
+    }
     initial_capacity = next_power_of_two(initial_capacity);
   }
 
-- 
2.43.0


From ff7404e6809c5271797a76db92a3e565343d97e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 21/34] fix: initializing an initialized hash map leaked its
 contents instead of failing as documented

---
 src/hash_map.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hash_map.c b/src/hash_map.c
index c75641c..bad0edc 100644
--- a/src/hash_map.c
+++ b/src/hash_map.c
@@ -272,6 +272,11 @@ rcutils_hash_map_init(
     return RCUTILS_RET_INVALID_ARGUMENT;
   }
 
+  if (NULL != hash_map->impl) {
+    RCUTILS_SET_ERROR_MSG("hash_map already initialized");
+    return RCUTILS_RET_STRING_MAP_ALREADY_INIT;
+  }
+
   // Due to an optimization we use during lookup, the capacity must be a power-of-two.
   // If the user passed us something that is not power-of-two, round up to the next power-of-two
   if ((initial_capacity & (initial_capacity - 1)) != 0) {
-- 
2.43.0


From 86cc6d70c7add22adf069d00c16c6ee2f8daa354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:42 +0000
Subject: [PATCH 22/34] fix: looking up a length-limited key matched longer
 string map keys and read past it

---
 src/string_map.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/string_map.c b/src/string_map.c
index 47688e0..cb9b643 100644
--- a/src/string_map.c
+++ b/src/string_map.c
@@ -255,11 +255,11 @@ __get_index_of_key_if_exists(
     if (NULL == string_map_impl->key_value_pairs[i].key) {
       continue;
     }
-    size_t cmp_count = strlen(string_map_impl->key_value_pairs[i].key);
-    if (key_length > cmp_count) {
-      cmp_count = key_length;
+    // a stored key longer than the given one cannot be equal, and must not be compared beyond it
+    if (strlen(string_map_impl->key_value_pairs[i].key) > key_length) {
+      continue;
     }
-    if (strncmp(key, string_map_impl->key_value_pairs[i].key, cmp_count) == 0) {
+    if (strncmp(key, string_map_impl->key_value_pairs[i].key, key_length) == 0) {
       *index = i;
       return true;
     }
-- 
2.43.0


From 5f483a61cecca6dc74f1f89ca9d9ff27f6618750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:42 +0000
Subject: [PATCH 23/34] fix: shrinking a string map after removals dropped and
 leaked entries

---
 src/string_map.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/string_map.c b/src/string_map.c
index cb9b643..e69bf31 100644
--- a/src/string_map.c
+++ b/src/string_map.c
@@ -180,6 +180,20 @@ rcutils_string_map_reserve(rcutils_string_map_t * string_map, size_t capacity)
       return RCUTILS_RET_BAD_ALLOC;
     }
 
+    // when shrinking, first move the pairs in use to the front so that none is cut off
+    if (capacity < string_map->impl->capacity) {
+      key_value_pair_t * pairs = string_map->impl->key_value_pairs;
+      size_t used = 0;
+      for (size_t i = 0; i < string_map->impl->capacity; ++i) {
+        if (NULL != pairs[i].key) {
+          key_value_pair_t pair = pairs[i];
+          pairs[i].key = NULL;
+          pairs[i].value = NULL;
+          pairs[used++] = pair;
+        }
+      }
+    }
+
     // resize the keys and values, assigning the result only if it succeeds
     key_value_pair_t * new_key_value_pairs = allocator.reallocate(
       string_map->impl->key_value_pairs, capacity * sizeof(key_value_pair_t), allocator.state);
-- 
2.43.0


From ecb230b1f191e9b2ccf86509eed356899238ce60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 24/34] fix: signed overflow shifting message bytes in the
 SHA-256 transform

---
 src/sha256.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sha256.c b/src/sha256.c
index a1be113..dedfd16 100644
--- a/src/sha256.c
+++ b/src/sha256.c
@@ -75,7 +75,7 @@ static void sha256_transform(rcutils_sha256_ctx_t * ctx)
   uint8_t * data = ctx->data;
 
   for (i = 0, j = 0; i < 16; ++i, j += 4) {
-    m[i] = (data[j] << 24) | (data[j + 1] << 16) | (data[j + 2] << 8) | (data[j + 3]);
+    m[i] = ((uint32_t)data[j] << 24) | (data[j + 1] << 16) | (data[j + 2] << 8) | (data[j + 3]);
   }
   for ( ; i < 64; ++i) {
     m[i] = sig1(m[i - 2]) + m[i - 7] + sig0(m[i - 15]) + m[i - 16];
-- 
2.43.0


From 966edfbef320cb5a9e9aafd8f3e6b9052bf720b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:40 +0000
Subject: [PATCH 25/34] fix: advancing a directory iterator without state
 dereferenced a null pointer

---
 src/filesystem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filesystem.c b/src/filesystem.c
index 25c71d7..c617ac2 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -475,7 +475,7 @@ bool
 rcutils_dir_iter_next(rcutils_dir_iter_t * iter)
 {
   RCUTILS_CHECK_ARGUMENT_FOR_NULL(iter, false);
-  RCUTILS_CHECK_FOR_NULL_WITH_MSG(iter->state, "iter is invalid", false);
+  RCUTILS_CHECK_FOR_NULL_WITH_MSG(iter->state, "iter is invalid", return false);
 
 #ifdef _WIN32
   if (FindNextFile(iter->state->handle, &iter->state->data)) {
-- 
2.43.0


From 7e86f947a9851b66af5da4ba2e5f66b4dc29b94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:40 +0000
Subject: [PATCH 26/34] fix: calculating the size of a directory without any
 entry dereferenced a null name

---
 src/filesystem.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/filesystem.c b/src/filesystem.c
index c617ac2..a3c71b2 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -386,12 +386,15 @@ rcutils_calculate_directory_size_with_recursion(
       goto fail;
     }
 
-    do {
+    // A directory that was just removed has no entries at all, not even `.`
+    bool has_entry = NULL != iter->entry_name;
+    while (has_entry) {
       ret = check_and_calculate_size(iter->entry_name, size, max_depth, dir_list, allocator);
       if (RCUTILS_RET_OK != ret) {
         goto fail;
       }
-    } while (rcutils_dir_iter_next(iter));
+      has_entry = rcutils_dir_iter_next(iter);
+    }
 
     rcutils_dir_iter_end(iter);
 
-- 
2.43.0


From 6ede17cf3077bc2b411a688b319682c6024e4504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:40 +0000
Subject: [PATCH 27/34] fix: joining paths cut off everything beyond 2047
 characters

---
 src/filesystem.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filesystem.c b/src/filesystem.c
index a3c71b2..00a0b33 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -182,8 +182,10 @@ rcutils_join_path(
     return NULL;
   }
 
-  return rcutils_format_string(
+  // two paths, the delimiter and the terminator
+  return rcutils_format_string_limit(
     allocator,
+    strlen(left_hand_path) + strlen(right_hand_path) + strlen(RCUTILS_PATH_DELIMITER) + 1,
     "%s%s%s",
     left_hand_path, RCUTILS_PATH_DELIMITER, right_hand_path);
 }
-- 
2.43.0


From 85e7c16e25a05e7e956ff6cc20695117799f35ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:40 +0000
Subject: [PATCH 28/34] fix: directory sizes followed symbolic links, counting
 targets or never ending

---
 src/filesystem.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/filesystem.c b/src/filesystem.c
index 00a0b33..b3cbb4a 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -310,6 +310,15 @@ static rcutils_ret_t check_and_calculate_size(
     return RCUTILS_RET_BAD_ALLOC;
   }
 
+#ifndef _WIN32
+  // Symbolic links are not followed
+  struct stat link_stat;
+  if (lstat(file_path, &link_stat) == 0 && S_ISLNK(link_stat.st_mode)) {
+    allocator.deallocate(file_path, allocator.state);
+    return RCUTILS_RET_OK;
+  }
+#endif  // _WIN32
+
   if (rcutils_is_directory(file_path)) {
     if ((max_depth == 0) || ((dir_list->depth + 1) <= max_depth)) {
       // Add new directory to dir_list
-- 
2.43.0


From 1a6a2d787859e1153b0f2354d95c5617c6ba7b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 29/34] fix: unknown escapes in the log format read before it,
 and an earlier format showed through

---
 src/logging.c | 56 ++++++++++++++++++++++-----------------------------
 1 file changed, 24 insertions(+), 32 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index 7aac274..8e401af 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -460,8 +460,6 @@ static void create_format_string(
   const char * logging_output_format_string)
 {
   size_t dest_buffer_index = 0;
-  size_t start_offset = 0;
-  size_t start_offset_previous_not_copy = 0;
   size_t back_slash_index = 0;
 
   size_t length = strlen(logging_output_format_string);
@@ -472,19 +470,21 @@ static void create_format_string(
   for (size_t i = 0; i < length; ) {
     back_slash_index = rcutils_findn(
       logging_output_format_string + i, RCUTILS_LOGGING_BACKSLASH_CHAR, length - i);
-    if (back_slash_index == SIZE_MAX) {
-      memcpy(
-        g_rcutils_logging_output_format_string + dest_buffer_index,
-        logging_output_format_string + start_offset - start_offset_previous_not_copy,
-        length - start_offset + start_offset_previous_not_copy);
-      break;
-    } else {
+    // copy everything up to the back slash, or the rest
+    size_t len = back_slash_index == SIZE_MAX ? length - i : back_slash_index;
+    memcpy(
+      g_rcutils_logging_output_format_string + dest_buffer_index,
+      logging_output_format_string + i,
+      len);
+    dest_buffer_index += len;
+    i += len;
+    if (back_slash_index != SIZE_MAX) {
       const char * expected_char = NULL;
-      int skip_chars = 0;
+      size_t skip_chars = 0;
 
-      if (logging_output_format_string[i + back_slash_index + 1] == 'x' &&
-        logging_output_format_string[i + back_slash_index + 2] == '1' &&
-        logging_output_format_string[i + back_slash_index + 3] == 'b')
+      if (logging_output_format_string[i + 1] == 'x' &&
+        logging_output_format_string[i + 2] == '1' &&
+        logging_output_format_string[i + 3] == 'b')
       {
         // detect escape sequence
         ACTIVATE_VIRTUAL_TERMINAL_PROCESSING();
@@ -493,7 +493,7 @@ static void create_format_string(
         // therefore we need to skip forward in parsing the output format string
         skip_chars = 2;
       } else {
-        switch (logging_output_format_string[i + back_slash_index + 1]) {
+        switch (logging_output_format_string[i + 1]) {
           case 'a':  expected_char = "\a"; break;  // alert
           case 'b':  expected_char = "\b"; break;  // backspace
           case 'n':  expected_char = "\n"; break;  // new line
@@ -505,29 +505,21 @@ static void create_format_string(
       }
 
       if (expected_char) {
-        if (back_slash_index > 0) {
-          // copy previous buffer first
-          size_t len = back_slash_index + start_offset_previous_not_copy;
-          memcpy(
-            g_rcutils_logging_output_format_string + dest_buffer_index,
-            logging_output_format_string + start_offset,
-            len);
-          dest_buffer_index += len;
-          start_offset += len;
-          start_offset_previous_not_copy = 0;
-        }
-
         // copy the decoded character
-        g_rcutils_logging_output_format_string[dest_buffer_index] = expected_char[0];
-        dest_buffer_index += 1;
-        start_offset += 2 + skip_chars;
+        g_rcutils_logging_output_format_string[dest_buffer_index++] = expected_char[0];
+        i += 2 + skip_chars;
       } else {
-        start_offset_previous_not_copy += (back_slash_index + 2);
+        // not an escape sequence: keep the back slash and the character it precedes, if any
+        g_rcutils_logging_output_format_string[dest_buffer_index++] =
+          logging_output_format_string[i++];
+        if (i < length) {
+          g_rcutils_logging_output_format_string[dest_buffer_index++] =
+            logging_output_format_string[i++];
+        }
       }
-
-      i += (back_slash_index + 2 + skip_chars);
     }
   }
+  g_rcutils_logging_output_format_string[dest_buffer_index] = '\0';
 }
 
 static bool add_handler(token_handler handler, size_t start_offset, size_t end_offset)
-- 
2.43.0


From 982b372b8ece10534bd068916faa531ac148fe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 30/34] fix: formatting a message of unknown severity read
 outside the severity names

---
 src/logging.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/logging.c b/src/logging.c
index 8e401af..475e942 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -286,7 +286,16 @@ static const char * expand_severity(
   (void)start_offset;
   (void)end_offset;
 
-  const char * severity_string = g_rcutils_log_severity_names[logging_input->severity];
+  const int severity = logging_input->severity;
+  if (severity < 0 ||
+    severity >=
+    (int)(sizeof(g_rcutils_log_severity_names) / sizeof(g_rcutils_log_severity_names[0])) ||
+    NULL == g_rcutils_log_severity_names[severity])
+  {
+    RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING("unknown severity level: %d\n", severity);
+    return NULL;
+  }
+  const char * severity_string = g_rcutils_log_severity_names[severity];
   if (rcutils_char_array_strcat(logging_output, severity_string) != RCUTILS_RET_OK) {
     RCUTILS_SAFE_FWRITE_TO_STDERR(rcutils_get_error_string().str);
     rcutils_reset_error();
-- 
2.43.0


From 1fa97dd62f5f06cbc215602710a8134223090ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 31/34] fix: failing to store a logger level leaked the
 logger's name

---
 src/logging.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/logging.c b/src/logging.c
index 475e942..957473d 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -918,6 +918,10 @@ static rcutils_ret_t add_key_to_hash_map(const char * name, int level, bool set_
     RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(
       "Error setting severity level for logger named '%s': %s",
       name, rcutils_get_error_string().str);
+    if (!already_exists) {
+      g_rcutils_logging_allocator.deallocate(
+        (char *)copy_name, g_rcutils_logging_allocator.state);
+    }
     return RCUTILS_RET_ERROR;
   }
 
-- 
2.43.0


From 702901a4e13e7cc71268339978df291b7c0e4eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 32/34] fix: failing to change the level of a logger lost the
 level set before

---
 src/logging.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index 957473d..d711afa 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -1127,16 +1127,12 @@ rcutils_ret_t rcutils_logging_set_logger_level(const char * name, int level)
       char * previous_key = key;
       bool free_current_key = false;
       if (key != NULL && strncmp(name, key, name_length) == 0) {
-        // If this is the key we are replacing, unconditionally remove it from the hash map;
-        // we'll be adding it back as a user-set level anyway
-        if (key[name_length] == '\0') {
+        // If this is the key we are replacing, keep it: its level is overwritten in place below,
+        // which cannot fail and lose the level that was set before.
+        // Otherwise, this is a descendant; only remove it from the hash map
+        // if we cached it (the user didn't explicitly set it).
+        if (key[name_length] != '\0' && !(tmp_level & 0x1)) {
           free_current_key = true;
-        } else {
-          // Otherwise, this is a descendant; only remove it from the hash map
-          // if we cached it (the user didn't explicitly set it).
-          if (!(tmp_level & 0x1)) {
-            free_current_key = true;
-          }
         }
       }
 
@@ -1178,7 +1174,7 @@ rcutils_ret_t rcutils_logging_set_logger_level(const char * name, int level)
       name, rcutils_get_error_string().str);
   }
 
-  if (name_length == 0) {
+  if (name_length == 0 && add_key_ret == RCUTILS_RET_OK) {
     // If the name was empty, this also means we should update the default logger level
     g_rcutils_logging_default_logger_level = level;
   }
-- 
2.43.0


From cccd4459d27b357857612d3254abf0d84b22f2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 33/34] fix: converting a severity string passed negative
 characters to toupper

---
 src/logging.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index d711afa..0167d92 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -830,8 +830,8 @@ rcutils_logging_severity_level_from_string(
     RCUTILS_SET_ERROR_MSG("failed to allocate memory for uppercase string");
     return RCUTILS_RET_BAD_ALLOC;
   }
-  for (int i = 0; severity_string_upper[i]; ++i) {
-    severity_string_upper[i] = (char)toupper(severity_string_upper[i]);
+  for (size_t i = 0; severity_string_upper[i]; ++i) {
+    severity_string_upper[i] = (char)toupper((unsigned char)severity_string_upper[i]);
   }
 
   // Determine the severity value matching the severity name.
-- 
2.43.0


From d277e893e7c87886d351d15ced4e9e2f6594b09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:40 +0000
Subject: [PATCH 34/34] fix: do not overflow the result length in
 rcutils_repl_str

---
 src/repl_str.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/repl_str.c b/src/repl_str.c
index 8d1de21..135b27b 100644
--- a/src/repl_str.c
+++ b/src/repl_str.c
@@ -100,6 +100,10 @@ rcutils_repl_str(
   /* Allocate memory for the post-replacement string. */
   if (count > 0) {
     tolen = strlen(to);
+    /* A result longer than any object cannot be allocated. */
+    if (tolen > fromlen && tolen - fromlen > (SIZE_MAX - 1 - orglen) / count) {
+      goto end_repl_str;
+    }
     retlen = orglen + (tolen - fromlen) * count;
   } else {
     retlen = orglen;
-- 
2.43.0

