From 0c2104c9d5ef87d49e820b5a83792d9f306ab8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:49 +0000
Subject: [PATCH 01/55] fix: PeriodicTimeout::remaining() could wrap to a huge
 value if the clock advanced during the call

---
 src/TimerTools/TimerTools.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/TimerTools/TimerTools.h b/src/TimerTools/TimerTools.h
index 0469d71..05fbf59 100644
--- a/src/TimerTools/TimerTools.h
+++ b/src/TimerTools/TimerTools.h
@@ -81,7 +81,10 @@ class PeriodicTimeout {
     inline bool enabled() {                return (0 < _period);            };
     inline unsigned long period() {        return _period;                  };
     inline unsigned long remaining() {
-      return (expired() ? 0 : _until(_mark + _period));
+      // NOTE: The clock must only be read once. Otherwise, it might advance past
+      //   the deadline between the test for expiry and the subtraction.
+      const unsigned long ELAPSED = _since(_mark);
+      return ((_period <= ELAPSED) ? 0 : (_period - ELAPSED));
     };
     inline bool     expired() {
       return ((0 == _period) || (_period <= _since(_mark)));
-- 
2.43.0


From f3beecb9b956dfbecd4bfb93768c7079cb52dc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:49 +0000
Subject: [PATCH 02/55] fix: StopWatch::markStop() on a new StopWatch read an
 uninitialized start time

---
 src/TimerTools/StopWatch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimerTools/StopWatch.cpp b/src/TimerTools/StopWatch.cpp
index 3f8b4af..47f8eb6 100644
--- a/src/TimerTools/StopWatch.cpp
+++ b/src/TimerTools/StopWatch.cpp
@@ -28,7 +28,7 @@ limitations under the License.
 /**
 * Constructor
 */
-StopWatch::StopWatch(uint32_t _t) : _tag(_t) {
+StopWatch::StopWatch(uint32_t _t) : _tag(_t), _start_micros(0) {
   reset();
 }
 
-- 
2.43.0


From 174e65b8d0f1f9f367580383c58080eaa1205a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:49 +0000
Subject: [PATCH 03/55] fix: stringToTimestamp() was a day short in years that
 are not leap-years

---
 src/CppPotpourri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CppPotpourri.cpp b/src/CppPotpourri.cpp
index 9fd5626..03c2fa8 100644
--- a/src/CppPotpourri.cpp
+++ b/src/CppPotpourri.cpp
@@ -79,7 +79,7 @@ uint64_t stringToTimestamp(const char* str) {
 
   if (year >= 1972) {
     // Check for leap year.
-    days += ((year - 1972) >> 2);  // Extra days caused by leap-years.
+    days += ((year - 1969) >> 2);  // Extra days caused by leap-years prior to this one.
     if ((((year - 1972) % 4) == 0) && (month > 2)) {
       // If it is at-least March of this year, and this year is a leap-year, add another 86400.
       days++;
-- 
2.43.0


From 05e8b070453362912cd048a17af0797555936be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:40 +0000
Subject: [PATCH 04/55] fix: RingBuffer::cull() divided by zero on a ring of
 zero capacity

---
 src/RingBuffer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/RingBuffer.h b/src/RingBuffer.h
index f39eeab..31f436b 100644
--- a/src/RingBuffer.h
+++ b/src/RingBuffer.h
@@ -132,8 +132,10 @@ template <class T> void RingBuffer<T>::clear() {
 template <class T> int RingBuffer<T>::cull(const unsigned int CULL_COUNT) {
   if (!allocated() || (0 == CULL_COUNT)) {  return -1;  }
   const uint32_t SAFE_CULL_COUNT = strict_min((uint32_t) CULL_COUNT, (uint32_t) _count);
-  _r = ((_r + SAFE_CULL_COUNT) % _CAPAC);
-  _count -= SAFE_CULL_COUNT;
+  if (0 < SAFE_CULL_COUNT) {   // NOTE: Also guards the modulus for capacity.
+    _r = ((_r + SAFE_CULL_COUNT) % _CAPAC);
+    _count -= SAFE_CULL_COUNT;
+  }
   return SAFE_CULL_COUNT;
 }
 
-- 
2.43.0


From e20d8d0c3f2e0ea3343d04ea133e2d7b8f35392a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:40 +0000
Subject: [PATCH 05/55] fix: RingBuffer::peek(idx) accepted an index equal to
 the capacity

---
 src/RingBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RingBuffer.h b/src/RingBuffer.h
index 31f436b..42b3655 100644
--- a/src/RingBuffer.h
+++ b/src/RingBuffer.h
@@ -246,7 +246,7 @@ template <class T> T RingBuffer<T>::_get(bool also_remove) {
 * @return T(0) on failure, or the data at the given index.
 */
 template <class T> T RingBuffer<T>::peek(unsigned int idx, bool absolute_index) {
-  if (!allocated() || (0 == _count) || (idx > _CAPAC)) {
+  if (!allocated() || (0 == _count) || (idx >= _CAPAC)) {
     return (T)0;
   }
   T* return_value = (T*) (_pool + ((((absolute_index ? 0 : _r) + idx) % _CAPAC) * _E_SIZE));
-- 
2.43.0


From 08388f6c87946701fa87dec079803c4f0f732e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:49 +0000
Subject: [PATCH 06/55] fix: LinkedList::remove(T) stopped after removing the
 first element

---
 src/LightLinkedList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LightLinkedList.h b/src/LightLinkedList.h
index b8ba35f..55231c8 100644
--- a/src/LightLinkedList.h
+++ b/src/LightLinkedList.h
@@ -268,7 +268,7 @@ template <class T> bool LinkedList<T>::remove(T test_data) {
       free(current);
       element_count--;
       return_value = true;
-      current = (nullptr == prior) ? nullptr : prior->next;
+      current = (nullptr == prior) ? root : prior->next;
     }
     else {
       prior = current;
-- 
2.43.0


From ee39920d008792d565912fad73282ca8ad1f2291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:49 +0000
Subject: [PATCH 07/55] fix: LinkedList::insert() wrote through the result of a
 failed allocation

---
 src/LightLinkedList.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/LightLinkedList.h b/src/LightLinkedList.h
index 55231c8..f179b00 100644
--- a/src/LightLinkedList.h
+++ b/src/LightLinkedList.h
@@ -117,15 +117,15 @@ template <class T> int LinkedList<T>::clear(void) {
 * @return the position in the list that the data was inserted, or -1 on failure.
 */
 template <class T> int LinkedList<T>::insert(T d) {
-  Node<T> *current;
+  Node<T> *current = (Node<T>*) malloc(sizeof(Node<T>));
+  if (nullptr == current) {
+    return -1;
+  }
   if (root == nullptr) {
-    root = (Node<T>*) malloc(sizeof(Node<T>));
-    current = root;
+    root = current;
   }
   else {
-    current = getLast();
-    current->next = (Node<T>*) malloc(sizeof(Node<T>));
-    current = current->next;
+    getLast()->next = current;
   }
   current->next = nullptr;
   current->data = d;
-- 
2.43.0


From 554a350e1f55e6514b8cb35f4282e8ea39591f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 08/55] fix: PriorityQueue::remove(T) stopped after removing
 the first element

---
 src/PriorityQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PriorityQueue.h b/src/PriorityQueue.h
index f9004c8..89851a5 100644
--- a/src/PriorityQueue.h
+++ b/src/PriorityQueue.h
@@ -563,7 +563,7 @@ template <class T> bool PriorityQueue<T>::remove(T test_data) {
       free(current);
       element_count--;
       return_value = true;
-      current = (nullptr == prior) ? nullptr : prior->next;
+      current = (nullptr == prior) ? root : prior->next;
     }
     else {
       prior = current;
-- 
2.43.0


From e854745399a0fa84cffd2e5c35342a5cc4a855da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 09/55] fix: PriorityQueue::insertIfAbsent() reported one less
 than the position of insertion

---
 src/PriorityQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PriorityQueue.h b/src/PriorityQueue.h
index 89851a5..1da7830 100644
--- a/src/PriorityQueue.h
+++ b/src/PriorityQueue.h
@@ -185,7 +185,7 @@ template <class T> int PriorityQueue<T>::insertIfAbsent(T d, int nu_pri) {
 //    };
   #endif
 
-  int return_value = -1;
+  int return_value = 0;
   PriorityNode<T>* insert_pointer = nullptr;
   PriorityNode<T>* current = root;
   while (nullptr != current) {
-- 
2.43.0


From f54a1aa2db9be68a48692f43499fe09ac1d3b0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:12 +0000
Subject: [PATCH 10/55] fix: randomArt() never returned for digests longer than
 65535 bytes

---
 src/CppPotpourri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CppPotpourri.cpp b/src/CppPotpourri.cpp
index 03c2fa8..441dcc0 100644
--- a/src/CppPotpourri.cpp
+++ b/src/CppPotpourri.cpp
@@ -176,7 +176,7 @@ int randomArt(uint8_t* dgst_raw, unsigned int dgst_raw_len, const char* title, S
   bzero(&array, ARSZ);
   uint8_t pos = 76;
 
-  for (uint16_t idx = 0; idx < dgst_raw_len; idx++) {
+  for (unsigned int idx = 0; idx < dgst_raw_len; idx++) {
     uint8_t temp = *(dgst_raw + idx);
     for (uint8_t i = 0; i < 4; i++) {
       if (ra_new_position(&pos, (temp & 0x03))) array[pos]++;
-- 
2.43.0


From 48190a832a78eea736ee3e0dc69678150ed8aa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:12 +0000
Subject: [PATCH 11/55] fix: randomArt() cut a line short where a cell was
 visited 17 times

---
 src/CppPotpourri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CppPotpourri.cpp b/src/CppPotpourri.cpp
index 441dcc0..0c07e4a 100644
--- a/src/CppPotpourri.cpp
+++ b/src/CppPotpourri.cpp
@@ -196,7 +196,7 @@ int randomArt(uint8_t* dgst_raw, unsigned int dgst_raw_len, const char* title, S
   line_buf[20] = '\0';
   for (uint8_t i = 0; i < YLIM; i++) {
     for (uint8_t j = 0; j < XLIM; j++) {
-      *(line_buf + j + 1) = *(ra_symbols + array[j + (XLIM * i)] % 18);
+      *(line_buf + j + 1) = *(ra_symbols + array[j + (XLIM * i)] % 17);
     }
     temp.concatf(line_buf);
   }
-- 
2.43.0


From bb5728b47e333d1da33927afaea2e66f057d907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:42 +0000
Subject: [PATCH 12/55] fix: M2MMsgHdr total length did not count its own
 second and third length bytes

---
 src/M2MLink/M2MMsgHdr.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/M2MLink/M2MMsgHdr.cpp b/src/M2MLink/M2MMsgHdr.cpp
index 6316f1a..abbe017 100644
--- a/src/M2MLink/M2MMsgHdr.cpp
+++ b/src/M2MLink/M2MMsgHdr.cpp
@@ -54,9 +54,10 @@ M2MMsgHdr::M2MMsgHdr(M2MMsgCode m, uint8_t pl_len, uint8_t f, uint32_t i) :
 
   uint8_t calcd_len_sz = 1;
   uint32_t needed_total_sz = calcd_id_sz + pl_len + M2MMSGHDR_MINIMUM_HEADER_SIZE;
-  if (needed_total_sz > 0x000000FF) calcd_len_sz++;
-  if (needed_total_sz > 0x0000FFFE) calcd_len_sz++;
-  if (needed_total_sz <= 0x00FFFFFD) {  // Anything larger than this is invalid.
+  // Every length byte past the first is a part of the total length.
+  if (needed_total_sz > 0x000000FF) {  calcd_len_sz++;  needed_total_sz++;  }
+  if (needed_total_sz > 0x0000FFFF) {  calcd_len_sz++;  needed_total_sz++;  }
+  if (needed_total_sz <= 0x00FFFFFF) {  // Anything larger than this is invalid.
     flags = ((flags & ~M2MMSGHDR_FLAG_ENCODES_LENGTH_BYTES) | (calcd_len_sz << 4));
     msg_len = needed_total_sz;
     chk_byte = (uint8_t) (flags + msg_len + (uint8_t)msg_code + M2MLINK_SERIALIZATION_VERSION);
@@ -98,9 +99,10 @@ bool M2MMsgHdr::set_payload_length(uint32_t pl_len) {
   bool ret = false;
   uint8_t calcd_len_sz = 1;
   uint32_t needed_total_sz = id_length() + pl_len + M2MMSGHDR_MINIMUM_HEADER_SIZE;
-  if (needed_total_sz > 0x000000FF) calcd_len_sz++;
-  if (needed_total_sz > 0x0000FFFE) calcd_len_sz++;
-  if (needed_total_sz <= 0x00FFFFFD) {  // Anything larger than this is invalid.
+  // Every length byte past the first is a part of the total length.
+  if (needed_total_sz > 0x000000FF) {  calcd_len_sz++;  needed_total_sz++;  }
+  if (needed_total_sz > 0x0000FFFF) {  calcd_len_sz++;  needed_total_sz++;  }
+  if ((pl_len <= 0x00FFFFFF) && (needed_total_sz <= 0x00FFFFFF)) {  // Anything larger than this is invalid.
     flags = ((flags & ~M2MMSGHDR_FLAG_ENCODES_LENGTH_BYTES) | (calcd_len_sz << 4));
     msg_len = needed_total_sz;
     chk_byte = calc_hdr_chcksm();
-- 
2.43.0


From d18d4ba71e9c74fae1fa841e2592d28363c142ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:42 +0000
Subject: [PATCH 13/55] fix: M2MMsgHdr could be left without an ID when a reply
 is expected

---
 src/M2MLink/M2MMsgHdr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MMsgHdr.cpp b/src/M2MLink/M2MMsgHdr.cpp
index abbe017..da5784f 100644
--- a/src/M2MLink/M2MMsgHdr.cpp
+++ b/src/M2MLink/M2MMsgHdr.cpp
@@ -38,11 +38,12 @@ M2MMsgHdr::M2MMsgHdr(M2MMsgCode m, uint8_t pl_len, uint8_t f, uint32_t i) :
     msg_len(0),
     msg_id(i & 0x00FFFFFF)
 {
-  if ((f & M2MMSGHDR_FLAG_EXPECTING_REPLY) & (0 == i)) {
+  if ((f & M2MMSGHDR_FLAG_EXPECTING_REPLY) && (0 == msg_id)) {
     // Assign an ID automatically, if needed.
     if (M2MMsgCode::SYNC_KEEPALIVE != m) {
       // SYNC is allowed to have a reply with no ID.
       msg_id = (0x00FFFFFF & randomUInt32());
+      if (0 == msg_id) msg_id = 1;   // Zero means "no ID".
     }
   }
 
-- 
2.43.0


From 486235a07e1d414cd7cb2f97d1a4fea02cfd2cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:42 +0000
Subject: [PATCH 14/55] fix: attempt_header_parse() read past the buffer when a
 header encoded no length bytes

---
 src/M2MLink/M2MMsg.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MMsg.cpp b/src/M2MLink/M2MMsg.cpp
index 9def5e4..1a1cff3 100644
--- a/src/M2MLink/M2MMsg.cpp
+++ b/src/M2MLink/M2MMsg.cpp
@@ -60,7 +60,10 @@ int8_t M2MMsg::attempt_header_parse(M2MMsgHdr* hdr, StringBuilder* dat_in) {
 
     const uint8_t len_l = hdr->len_length();
     const uint8_t id_l  = hdr->id_length();
-    if (hdr->header_length() <= AVAILABLE_LEN) {
+    if (0 == len_l) {
+      ret = -3;   // The length is a required field.
+    }
+    else if (hdr->header_length() <= AVAILABLE_LEN) {
       // Write the multibyte value as big-endian.
       for (uint8_t i = 0; i < len_l; i++) hdr->msg_len = ((hdr->msg_len << 8) | *(tmp_buf++));
       for (uint8_t i = 0; i < id_l; i++)  hdr->msg_id  = ((hdr->msg_id << 8)  | *(tmp_buf++));
-- 
2.43.0


From 1e3253ed8180c948c2c13e3b6217c82ea2e86701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:01 +0000
Subject: [PATCH 15/55] fix: attempt_header_parse() accepted a total length
 shorter than the header

---
 src/M2MLink/M2MMsg.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MMsg.cpp b/src/M2MLink/M2MMsg.cpp
index 1a1cff3..fd78e17 100644
--- a/src/M2MLink/M2MMsg.cpp
+++ b/src/M2MLink/M2MMsg.cpp
@@ -69,7 +69,8 @@ int8_t M2MMsg::attempt_header_parse(M2MMsgHdr* hdr, StringBuilder* dat_in) {
       for (uint8_t i = 0; i < id_l; i++)  hdr->msg_id  = ((hdr->msg_id << 8)  | *(tmp_buf++));
       hdr->chk_byte = *(tmp_buf++);
       ret = -3;
-      if (hdr->chk_byte == hdr->calc_hdr_chcksm()) {       // Does the checksum match?
+      // Does the checksum match, and does the total length cover the header?
+      if ((hdr->chk_byte == hdr->calc_hdr_chcksm()) && (0 <= hdr->payload_length())) {
         ret = 1;
         if (0 < hdr->payload_length()) {
           ret = (hdr->total_length() > AVAILABLE_LEN) ? 0 : 2;
-- 
2.43.0


From 8931ca5933ce420c9c494df6ca01f5a24613baa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:57 +0000
Subject: [PATCH 16/55] fix: M2MMsgHdr::isValid() accepted a total length
 shorter than the header

---
 src/M2MLink/M2MMsgHdr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MMsgHdr.cpp b/src/M2MLink/M2MMsgHdr.cpp
index da5784f..35ca93c 100644
--- a/src/M2MLink/M2MMsgHdr.cpp
+++ b/src/M2MLink/M2MMsgHdr.cpp
@@ -162,7 +162,7 @@ bool M2MMsgHdr::isValid() {
 
         if (calcd_id_sz == id_length()) {                 // Is the ID field properly sized?
           if (calcd_len_sz == len_length()) {           // Is the length field properly sized?
-            if (msg_len >= M2MMSGHDR_MINIMUM_HEADER_SIZE) {   // If the total length is legal...
+            if (msg_len >= (uint32_t) header_length()) {   // If the total length is legal...
               if (chk_byte == calc_hdr_chcksm()) {       // Does the checksum match?
                 // Reply logic needs an ID if the message isn't a sync frame.
                 if (M2MMsgCode::SYNC_KEEPALIVE != msg_code) {
-- 
2.43.0


From 61d3ff6b8e09851d9e7c1a23960db5f0e57c8cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:28 +0000
Subject: [PATCH 17/55] fix: int64 values refuse unsigned sources above
 INT64_MAX instead of storing a negative number

---
 src/C3PValue/C3PType.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index d351aa5..a7713f7 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -892,9 +892,9 @@ template <> int8_t      C3PTypeConstraint<int64_t>::set_from(void* dest, const T
     case TCode::UINT32:     d = (int64_t) *((uint32_t*) src);   ret = 0;  break;
     case TCode::UINT64:
       {
-        int64_t s = _load_from_mem(src);
+        uint64_t s = (uint64_t) _load_from_mem(src);
         if (s <= INT64_MAX) {
-          d = s;
+          d = (int64_t) s;
           ret = 0;
         }
       }
-- 
2.43.0


From 2800df9a105af748a4f5fcc5880d89d1910ffabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:28 +0000
Subject: [PATCH 18/55] fix: refusing an oversized uint16 no longer falls
 through to reading it as a uint32

---
 src/C3PValue/C3PType.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index a7713f7..f7f54f0 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1047,6 +1047,7 @@ template <> int8_t      C3PTypeConstraint<uint8_t>::set_from(void* dest, const T
         *d = (uint8_t) *((uint16_t*) src);
         return 0;
       }
+      break;
     case TCode::UINT32:
       if (*((uint32_t*) src) <= UINT8_MAX) {
         *d = (uint8_t) *((uint32_t*) src);
-- 
2.43.0


From b663776c911151bab7e2420721ba9b0967bec0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:28 +0000
Subject: [PATCH 19/55] fix: float and double values can be read as booleans,
 as their type constraint declares

---
 src/C3PValue/C3PType.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index f7f54f0..f828f69 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1700,6 +1700,7 @@ template <> int8_t      C3PTypeConstraint<float>::get_as(void* src, const TCode
         memcpy(dest, (void*) &s_d, sizeOfType(TCode::DOUBLE));
       }
       return 0;
+    case TCode::BOOLEAN:    *((bool*) dest) = (0 != _load_from_mem(src));  return 0;
     default:  break;
   }
   return -1;
@@ -1790,6 +1791,7 @@ template <> int8_t      C3PTypeConstraint<double>::set_from(void* dest, const TC
 template <> int8_t      C3PTypeConstraint<double>::get_as(void* src, const TCode DEST_TYPE, void* dest) {
   switch (DEST_TYPE) {
     case TCode::DOUBLE:     memcpy(dest, src, FIXED_LEN);   return 0;
+    case TCode::BOOLEAN:    *((bool*) dest) = (0 != _load_from_mem(src));  return 0;
     default:  break;
   }
   return -1;
-- 
2.43.0


From 568f83e292e9a5dc6140ce950cc4ead0ae07e533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:00 +0000
Subject: [PATCH 20/55] fix: integers convert to double exactly in
 single-precision-constant builds

---
 src/C3PValue/C3PType.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index f828f69..9860c10 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -522,7 +522,7 @@ template <> int8_t      C3PTypeConstraint<int8_t>::get_as(void* src, const TCode
       break;
     case TCode::BOOLEAN:    *((bool*) dest) = (0 != s);         return 0;
     case TCode::FLOAT:      *((float*) dest) = (s * 1.0F);      return 0;
-    case TCode::DOUBLE:     *((double*) dest) = (s * 1.0D);     return 0;
+    case TCode::DOUBLE:     *((double*) dest) = ((double) s);     return 0;
     default:  break;
   }
   return -1;
@@ -666,7 +666,7 @@ template <> int8_t      C3PTypeConstraint<int16_t>::get_as(void* src, const TCod
       break;
     case TCode::BOOLEAN:    *((bool*) dest)   = (0 != s);       return 0;
     case TCode::FLOAT:      *((float*) dest)  = (s * 1.0F);     return 0;
-    case TCode::DOUBLE:     *((double*) dest) = (s * 1.0D);     return 0;
+    case TCode::DOUBLE:     *((double*) dest) = ((double) s);     return 0;
     default:  break;
   }
   return -1;
@@ -811,7 +811,7 @@ template <> int8_t      C3PTypeConstraint<int32_t>::get_as(void* src, const TCod
       break;
     case TCode::BOOLEAN:    *((bool*) dest)   = (0 != s);       return 0;
     case TCode::FLOAT:      *((float*) dest)  = (s * 1.0F);     return 0;
-    case TCode::DOUBLE:     *((double*) dest) = (s * 1.0D);     return 0;
+    case TCode::DOUBLE:     *((double*) dest) = ((double) s);     return 0;
     default:  break;
   }
   return -1;
@@ -955,7 +955,7 @@ template <> int8_t      C3PTypeConstraint<int64_t>::get_as(void* src, const TCod
       }
       break;
     case TCode::BOOLEAN:    *((bool*) dest)   = (0 != s);        return 0;
-    case TCode::DOUBLE:     *((double*) dest) = (s * 1.0D);      return 0;
+    case TCode::DOUBLE:     *((double*) dest) = ((double) s);      return 0;
     default:  break;
   }
   return -1;
@@ -1084,7 +1084,7 @@ template <> int8_t      C3PTypeConstraint<uint8_t>::get_as(void* src, const TCod
     case TCode::UINT64:     *((uint64_t*) dest) = (uint64_t) s;  return 0;
     case TCode::BOOLEAN:    *((bool*) dest)   = (0 != s);        return 0;
     case TCode::FLOAT:      *((float*) dest)  = (s * 1.0F);      return 0;
-    case TCode::DOUBLE:     *((double*) dest) = (s * 1.0D);      return 0;
+    case TCode::DOUBLE:     *((double*) dest) = ((double) s);      return 0;
     default:  break;
   }
   return -1;
@@ -1218,7 +1218,7 @@ template <> int8_t      C3PTypeConstraint<uint16_t>::get_as(void* src, const TCo
     case TCode::UINT64:     *((uint64_t*) dest) = (uint64_t) s;  return 0;
     case TCode::BOOLEAN:    *((bool*) dest)   = (0 != s);        return 0;
     case TCode::FLOAT:      *((float*) dest)  = (s * 1.0F);      return 0;
-    case TCode::DOUBLE:     *((double*) dest) = (s * 1.0D);      return 0;
+    case TCode::DOUBLE:     *((double*) dest) = ((double) s);      return 0;
     default:  break;
   }
   return -1;
@@ -1358,7 +1358,7 @@ template <> int8_t      C3PTypeConstraint<uint32_t>::get_as(void* src, const TCo
     case TCode::UINT64:     *((uint64_t*) dest) = (uint64_t) s;  return 0;
     case TCode::BOOLEAN:    *((bool*) dest)   = (0 != s);        return 0;
     case TCode::FLOAT:      *((float*) dest)  = (s * 1.0F);      return 0;
-    case TCode::DOUBLE:     *((double*) dest) = (s * 1.0D);      return 0;
+    case TCode::DOUBLE:     *((double*) dest) = ((double) s);      return 0;
     default:  break;
   }
   return -1;
@@ -1510,7 +1510,7 @@ template <> int8_t      C3PTypeConstraint<uint64_t>::get_as(void* src, const TCo
       break;
     case TCode::UINT64:     *((uint64_t*) dest) = (uint64_t) s;    return 0;
     case TCode::BOOLEAN:    *((bool*) dest)     = (0 != s);        return 0;
-    case TCode::DOUBLE:     *((double*) dest)   = (s * 1.0D);      return 0;
+    case TCode::DOUBLE:     *((double*) dest)   = ((double) s);      return 0;
     default:  break;
   }
   return -1;
@@ -1762,14 +1762,14 @@ template <> int8_t      C3PTypeConstraint<double>::set_from(void* dest, const TC
   int8_t ret = -1;
   double d = 0.0d;
   switch (SRC_TYPE) {
-    case TCode::INT8:     d = (1.0d * *((int8_t*) src));        ret = 0;   break;
-    case TCode::INT16:    d = (1.0d * *((int16_t*) src));       ret = 0;   break;
-    case TCode::INT32:    d = (1.0d * *((int32_t*) src));       ret = 0;   break;
-    case TCode::INT64:    d = (1.0d * *((int64_t*) src));       ret = 0;   break;
-    case TCode::UINT8:    d = (1.0d * *((uint8_t*) src));       ret = 0;   break;
-    case TCode::UINT16:   d = (1.0d * *((uint16_t*) src));      ret = 0;   break;
-    case TCode::UINT32:   d = (1.0d * *((uint32_t*) src));      ret = 0;   break;
-    case TCode::UINT64:   d = (1.0d * *((uint64_t*) src));      ret = 0;   break;
+    case TCode::INT8:     d = ((double) *((int8_t*) src));        ret = 0;   break;
+    case TCode::INT16:    d = ((double) *((int16_t*) src));       ret = 0;   break;
+    case TCode::INT32:    d = ((double) *((int32_t*) src));       ret = 0;   break;
+    case TCode::INT64:    d = ((double) *((int64_t*) src));       ret = 0;   break;
+    case TCode::UINT8:    d = ((double) *((uint8_t*) src));       ret = 0;   break;
+    case TCode::UINT16:   d = ((double) *((uint16_t*) src));      ret = 0;   break;
+    case TCode::UINT32:   d = ((double) *((uint32_t*) src));      ret = 0;   break;
+    case TCode::UINT64:   d = ((double) *((uint64_t*) src));      ret = 0;   break;
     case TCode::BOOLEAN:  d = (*((bool*) src) ? 1.0d : 0.0d);   ret = 0;   break;
     case TCode::FLOAT:
       {
-- 
2.43.0


From 5f83a062dceaf3dfa9b05643642fa302ad97983f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:26 +0000
Subject: [PATCH 21/55] fix: uint32 values refuse negative int64 sources

---
 src/C3PValue/C3PType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 9860c10..3855310 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1300,7 +1300,7 @@ template <> int8_t      C3PTypeConstraint<uint32_t>::set_from(void* dest, const
       }
       break;
     case TCode::INT64:
-      if (*((int64_t*) src) <= UINT32_MAX) {
+      if ((*((int64_t*) src) <= UINT32_MAX) & (*((int64_t*) src) >= 0)) {
         *d = (uint32_t) *((int64_t*) src);
         return 0;
       }
-- 
2.43.0


From 5257aaef93738aaa31eafb3e82a061a8e6ea602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:26 +0000
Subject: [PATCH 22/55] fix: vectors refuse a binary source too short to hold
 them

---
 src/C3PValue/C3PType.cpp | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 3855310..5239ed0 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1847,7 +1847,10 @@ template <> int8_t      C3PTypeConstraint<Vector3f64>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3f64**) src)));   return 0;
+      case TCode::BINARY:
+        if (((C3PBinBinder*) src)->len < FIXED_LEN) break;   // Too short to hold the vector.
+        _store_in_mem(dest, _load_from_mem(*((Vector3f64**) src)));
+        return 0;
       default:  break;
     }
   }
@@ -1913,7 +1916,10 @@ template <> int8_t      C3PTypeConstraint<Vector3u8>::set_from(void* dest, const
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3u8**) src)));   return 0;
+      case TCode::BINARY:
+        if (((C3PBinBinder*) src)->len < FIXED_LEN) break;   // Too short to hold the vector.
+        _store_in_mem(dest, _load_from_mem(*((Vector3u8**) src)));
+        return 0;
       default:  break;
     }
   }
@@ -1979,7 +1985,10 @@ template <> int8_t      C3PTypeConstraint<Vector3i8>::set_from(void* dest, const
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3i8**) src)));   return 0;
+      case TCode::BINARY:
+        if (((C3PBinBinder*) src)->len < FIXED_LEN) break;   // Too short to hold the vector.
+        _store_in_mem(dest, _load_from_mem(*((Vector3i8**) src)));
+        return 0;
       default:  break;
     }
   }
@@ -2050,7 +2059,10 @@ template <> int8_t      C3PTypeConstraint<Vector3f>::set_from(void* dest, const
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3f**) src)));   return 0;
+      case TCode::BINARY:
+        if (((C3PBinBinder*) src)->len < FIXED_LEN) break;   // Too short to hold the vector.
+        _store_in_mem(dest, _load_from_mem(*((Vector3f**) src)));
+        return 0;
       default:  break;
     }
   }
@@ -2134,7 +2146,10 @@ template <> int8_t      C3PTypeConstraint<Vector3u32>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3u32**) src)));   return 0;
+      case TCode::BINARY:
+        if (((C3PBinBinder*) src)->len < FIXED_LEN) break;   // Too short to hold the vector.
+        _store_in_mem(dest, _load_from_mem(*((Vector3u32**) src)));
+        return 0;
       default:  break;
     }
   }
@@ -2200,7 +2215,10 @@ template <> int8_t      C3PTypeConstraint<Vector3i32>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3i32**) src)));   return 0;
+      case TCode::BINARY:
+        if (((C3PBinBinder*) src)->len < FIXED_LEN) break;   // Too short to hold the vector.
+        _store_in_mem(dest, _load_from_mem(*((Vector3i32**) src)));
+        return 0;
       default:  break;
     }
   }
@@ -2266,7 +2284,10 @@ template <> int8_t      C3PTypeConstraint<Vector3u16>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3u16**) src)));   return 0;
+      case TCode::BINARY:
+        if (((C3PBinBinder*) src)->len < FIXED_LEN) break;   // Too short to hold the vector.
+        _store_in_mem(dest, _load_from_mem(*((Vector3u16**) src)));
+        return 0;
       default:  break;
     }
   }
@@ -2332,7 +2353,10 @@ template <> int8_t      C3PTypeConstraint<Vector3i16>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3i16**) src)));   return 0;
+      case TCode::BINARY:
+        if (((C3PBinBinder*) src)->len < FIXED_LEN) break;   // Too short to hold the vector.
+        _store_in_mem(dest, _load_from_mem(*((Vector3i16**) src)));
+        return 0;
       default:  break;
     }
   }
-- 
2.43.0


From c1c306b20092648df35bb07aa7673bc783e3c828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:10 +0000
Subject: [PATCH 23/55] fix: CBOR input from a StringBuilder reads 16-bit
 values in network order

---
 src/cbor-cpp/cbor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 2d01cdc..5732775 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -70,8 +70,8 @@ uint16_t input_stringbuilder::get_short() {
   if (nullptr != _str_bldr) {
     uint8_t buf[2] = {0, 0};
     const int THIS_SIZE = _str_bldr->copyToBuffer(buf, 2, _offset);
-    value |= ((uint16_t) buf[1] << 8);
-    value |= ((uint16_t) buf[0]);
+    value |= ((uint16_t) buf[0] << 8);
+    value |= ((uint16_t) buf[1]);
     _update_local_vars(THIS_SIZE);
   }
   return value;
-- 
2.43.0


From 91d6096c754b3aa255d4e0aa00f00f531ebeeaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:10 +0000
Subject: [PATCH 24/55] fix: CBOR encoder writes both bytes of a 64-bit value
 below 65536

---
 src/cbor-cpp/cbor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 5732775..624f98b 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -349,6 +349,7 @@ void encoder::write_type_value64(int major_type, uint64_t value) {
   else if(value < 65536ULL) {
     _out->put_byte((uint8_t) (major_type | 25));
     _out->put_byte((uint8_t) (value >> 8));
+    _out->put_byte((uint8_t) value);
   }
   else if(value < 4294967296ULL) {
     _out->put_byte((uint8_t) (major_type | 26));
-- 
2.43.0


From 95965ae8f97f5235e1908f29831d40235b027ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:10 +0000
Subject: [PATCH 25/55] fix: CBOR decoder no longer wraps the negative integers
 -256 and -65536 to zero

---
 src/cbor-cpp/cbor.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 624f98b..0a5339e 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -677,8 +677,8 @@ void decoder::run() {
         switch(_currentLength) {
           case 1:
           {
-            uint8_t diff = _in->get_byte()+1;
-            if (diff < 128u) {
+            const int32_t diff = ((int32_t) _in->get_byte()) + 1;
+            if (diff < 128) {
               _listener->on_integer((int8_t) -(diff));
             }
             else {
@@ -689,8 +689,8 @@ void decoder::run() {
           break;
           case 2:
           {
-            uint16_t diff = _in->get_short()+1;
-            if (diff < 32768u) {
+            const int32_t diff = ((int32_t) _in->get_short()) + 1;
+            if (diff < 32768) {
               _listener->on_integer((int16_t) -(diff));
             }
             else {
-- 
2.43.0


From 9da97ddc8e0b8cc3b1d6e5b37a0dacb1d9699cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:10 +0000
Subject: [PATCH 26/55] fix: CBOR decoder delivers 32-bit negative integers
 below INT32_MIN

---
 src/cbor-cpp/cbor.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 0a5339e..461c8f3 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -703,10 +703,8 @@ void decoder::run() {
           temp = _in->get_int();
           if(temp <= INT32_MAX) {
             _listener->on_integer(((int32_t) -(temp+1)));
-          } else if(temp == 2147483648u) {
-            _listener->on_integer((int32_t) INT32_MIN);
-          } else {
-            _listener->on_extra_integer(temp, -1);
+          } else {   // Signed integers need to grow in width.
+            _listener->on_integer((int64_t) (-1 - (int64_t) temp));
           }
           _state = STATE_TYPE;
           break;
-- 
2.43.0


From bfaf168fca089087e8423d2f6839d3841c870801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:10 +0000
Subject: [PATCH 27/55] fix: CBOR decoder delivers 64-bit negative integers as
 negative, and goes on to the next item

---
 src/cbor-cpp/cbor.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 461c8f3..2eb4054 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -709,7 +709,16 @@ void decoder::run() {
           _state = STATE_TYPE;
           break;
           case 8:
-          _listener->on_integer(_in->get_long());
+          {
+            const uint64_t n = _in->get_long();
+            if (n <= (uint64_t) INT64_MAX) {
+              _listener->on_integer((int64_t) (-1 - (int64_t) n));
+            }
+            else {
+              _listener->on_extra_integer(n, -1);
+            }
+          }
+          _state = STATE_TYPE;
           break;
         }
       } else break;
-- 
2.43.0


From 637421a2d49ee00171bce7fd98f5ba2665acfdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:10 +0000
Subject: [PATCH 28/55] fix: CBOR decoder refuses byte and text strings of 2 GB
 or more instead of using a negative length

---
 src/cbor-cpp/cbor.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 2eb4054..be4839d 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -734,8 +734,15 @@ void decoder::run() {
           _state = STATE_BYTES_DATA;
           break;
           case 4:
-          _currentLength = _in->get_int();
-          _state = STATE_BYTES_DATA;
+          temp = _in->get_int();
+          if (temp < INT32_MAX) {
+            _currentLength = temp;
+            _state = STATE_BYTES_DATA;
+          }
+          else {
+            _state = STATE_ERROR;
+            _listener->on_error("extra long bytes");
+          }
           break;
           case 8:
           _state = STATE_ERROR;
@@ -762,8 +769,15 @@ void decoder::run() {
           _state = STATE_STRING_DATA;
           break;
           case 4:
-          _currentLength = _in->get_int();
-          _state = STATE_STRING_DATA;
+          temp = _in->get_int();
+          if (temp < INT32_MAX) {
+            _currentLength = temp;
+            _state = STATE_STRING_DATA;
+          }
+          else {
+            _state = STATE_ERROR;
+            _listener->on_error("extra long string");
+          }
           break;
           case 8:
           _state = STATE_ERROR;
-- 
2.43.0


From d20278ef74d64128803ffc71d123cee4784d5cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:11 +0000
Subject: [PATCH 29/55] fix: CBOR static output frees its malloc()ed buffer
 with free()

---
 src/cbor-cpp/cbor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index be4839d..9f4cac7 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -208,7 +208,7 @@ output_static::output_static(uint32_t cap, uint8_t* buf) : _buffer(buf), _capaci
 
 output_static::~output_static() {
   if (_should_free & (nullptr != _buffer)) {
-    delete _buffer;
+    free(_buffer);
     _buffer = nullptr;
   }
 }
-- 
2.43.0


From feab8e48a1fd35bcbb603041363ea967c4b4dbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:01 +0000
Subject: [PATCH 30/55] fix: decoding an empty CBOR byte string wrote past a
 zero-length stack array

---
 src/cbor-cpp/cbor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 9f4cac7..1cd7ae3 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -752,7 +752,7 @@ void decoder::run() {
       } else break;
     } else if(_state == STATE_BYTES_DATA) {
       if(_in->has_bytes(_currentLength)) {
-        uint8_t data[_currentLength] = {0, };
+        uint8_t data[_currentLength + 1] = {0, };  // A zero-length array must not be initialized.
         _in->get_bytes(data, _currentLength);
         _state = STATE_TYPE;
         _listener->on_bytes(data, _currentLength);
-- 
2.43.0


From 86cd831fb72e62f5e1943c0714318bb798453ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:05 +0000
Subject: [PATCH 31/55] fix: an empty byte string at the end of a consumed CBOR
 container was never decoded

---
 src/cbor-cpp/cbor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 1cd7ae3..8c6f86a 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -51,7 +51,7 @@ bool input_stringbuilder::has_bytes(int count) {
   if (nullptr != _str_bldr) {
     return ((_str_bldr->length() - (_consume_input ? 0 : _offset)) >= count);
   }
-  return false;
+  return (0 >= count);  // A container that was consumed to the end still holds zero bytes.
 }
 
 
-- 
2.43.0


From b9b4972fa7e248740fc34ed4eebf7ea9865e1cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:29 +0000
Subject: [PATCH 32/55] fix: StringBuilder read outside its content when asked
 for a negative offset

---
 src/StringBuilder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 86eea3a..ca2ae30 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1535,7 +1535,10 @@ int StringBuilder::_total_str_len(StrLL* node) {
 StrLL* StringBuilder::_get_ll_containing_offset(StrLL* str_ll, int* offset) {
   StrLL* ret = nullptr;
   const int STACKED_OFFSET = *offset;
-  if (STACKED_OFFSET < str_ll->len) {    // If we weren't asked for an offset
+  if (0 > STACKED_OFFSET) {
+    *offset = -1;  // No fragment holds a negative offset.
+  }
+  else if (STACKED_OFFSET < str_ll->len) {    // If we weren't asked for an offset
     ret = str_ll;                        //   past the end our bounds, we're
   }                                      //   it. Otherwise, return nullptr.
   else if (nullptr != str_ll->next) {    // Can we go deeper?
-- 
2.43.0


From aa7b62d951dcad6ef2952fc921d0a82d79031b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:29 +0000
Subject: [PATCH 33/55] fix: concatHandoffLimit() took everything when the
 limit fell on the first byte of a fragment

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index ca2ae30..0c500a1 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -693,7 +693,7 @@ void StringBuilder::concatHandoffLimit(StringBuilder* donar, unsigned int len_li
     donar->_root = nullptr;          // Inform the donar instance...
     int offset = (len_limit - 1);    // Get the StrLL containing the last byte to be transfered.
     StrLL* ll_with_byte = _get_ll_containing_offset(old_root, &offset);
-    if ((nullptr != ll_with_byte) & (0 < offset)) {
+    if (nullptr != ll_with_byte) {
       // We're going to leave some data with the donor. How much?
       if ((ll_with_byte->len - 1) == offset) {
         // The requested length fit neatly on a fragment boundary.
-- 
2.43.0


From a5ad67527af7eb2ff1d6d4dbf6a997807a2785e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:29 +0000
Subject: [PATCH 34/55] fix: concatHandoffLimit() lost the first fragment when
 the limit fell within the second

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 0c500a1..46d8571 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -726,7 +726,7 @@ void StringBuilder::concatHandoffLimit(StringBuilder* donar, unsigned int len_li
           }
           // To the extent that we can simply move memory references around, do
           //   so. All leading StrLL that fits within the limit is taken directly.
-          if (current != old_root) {
+          if (ll_with_byte != old_root) {
             current->next = split_left;       // Snip the list where we left it.
             _stack_str_onto_list(old_root);   // Attach the fragment list before
           }
-- 
2.43.0


From 110ac88ab0ae36d6801fc4faa9ed05d21ef2c479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:29 +0000
Subject: [PATCH 35/55] fix: concatHandoffLimit() lost the source if the split
 could not be allocated

---
 src/StringBuilder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 46d8571..0ad2eba 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -734,6 +734,9 @@ void StringBuilder::concatHandoffLimit(StringBuilder* donar, unsigned int len_li
             _stack_str_onto_list(split_left);  // No leading whole fragments to take.
           }
         }
+        else {
+          donar->_root = old_root;  // Allocation failed. Give it back.
+        }
       }
     }
     else {
-- 
2.43.0


From 738c070305ead1e03883ac0605dfb53893c1242b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 36/55] fix: concatLimit() copied nothing if the limit was
 larger than INT32_MAX

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 0ad2eba..ca3ce36 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -764,7 +764,7 @@ void StringBuilder::concatLimit(StringBuilder* donar, unsigned int len_limit) {
     pthread_mutex_lock(&donar->_mutex);
   #endif
   if ((0 < len_limit) && (nullptr != donar) && (!donar->isEmpty(true))) {
-    const int CONTENT_LEN = strict_min((int32_t) len_limit, (int32_t) donar->length());
+    const int CONTENT_LEN = strict_min((uint32_t) len_limit, (uint32_t) donar->length());
     if (0 < CONTENT_LEN) {
       StrLL* frag = _create_str_ll(CONTENT_LEN, donar->_root, 0);
       if (nullptr != frag) {
-- 
2.43.0


From 13f5d0422c96a4d62fb24e98a50b450844fc3676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 37/55] fix: concatHandoff() leaked the buffer it was given on
 allocation failure

---
 src/StringBuilder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index ca3ce36..92c01ac 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -838,6 +838,9 @@ void StringBuilder::concatHandoff(uint8_t* buf, int len) {
       nu_element->len = len;  //   separate free() on this member.
       _stack_str_onto_list(nu_element);
     }
+    else {
+      free(buf);  // The caller has already relinquished this.
+    }
     #if defined(__BUILD_HAS_PTHREADS)
       //pthread_mutex_unlock(&_mutex);
     #elif defined(__BUILD_HAS_FREERTOS)
-- 
2.43.0


From a4cb7c5a866d0728156fd3179263bf040bd14f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 38/55] fix: concatf() overflowed the stack if its arguments
 expanded beyond the estimated length

---
 src/StringBuilder.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 92c01ac..eff8087 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -953,14 +953,27 @@ int StringBuilder::concatf(const char* format, ...) {
 int StringBuilder::concatf(const char* format, va_list args) {
   int len = strlen(format);
   unsigned short f_codes = 0;  // Count how many format codes are in use...
-  for (unsigned short i = 0; i < len; i++) {  if (*(format+i) == '%') f_codes++; }
+  for (int i = 0; i < len; i++) {  if (*(format+i) == '%') f_codes++; }
   // Allocate (hopefully) more space than we will need....
-  const int est_len = len + 512 + (f_codes * 15);   // TODO: Iterate on failure of vsprintf().
+  const int est_len = len + 512 + (f_codes * 15);
   char temp[est_len];
   memset(temp, 0, est_len);
   int ret = 0;
-  ret = vsprintf(temp, format, args);
-  if (ret > 0) concat((char *) temp);
+  va_list args_copy;   // Only needed if the estimate was too small.
+  va_copy(args_copy, args);
+  ret = vsnprintf(temp, est_len, format, args);
+  if (ret >= est_len) {
+    StrLL* frag = _create_str_ll(ret);
+    if (nullptr != frag) {
+      vsnprintf((char*) frag->str, ret + 1, format, args_copy);
+      _stack_str_onto_list(frag);
+    }
+    else {
+      ret = -1;
+    }
+  }
+  else if (ret > 0) concat((char *) temp);
+  va_end(args_copy);
   return ret;
 }
 
-- 
2.43.0


From f4d35659460b88472091e713bc605685b058b63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 39/55] fix: cull() read outside the string if it could not be
 collapsed

---
 src/StringBuilder.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index eff8087..69f01ae 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1046,10 +1046,14 @@ void StringBuilder::cull(int offset, int new_length) {
         // TODO: Prepend the collapsed string into the list, and eat fragments.
         //   there is no need whatsoever for this fxn to ever call malloc(), let
         //   alone incure almost triple the memory load (worst-case).
-        _collapse();   // TODO: Room to optimize here...
-        memcpy(culled_str_ll->str, (_root->str + offset), new_length);
-        clear();                 // Throw away all else.
-        _root = culled_str_ll;   // Re-assign root.
+        if (0 == _collapse()) {   // TODO: Room to optimize here...
+          memcpy(culled_str_ll->str, (_root->str + offset), new_length);
+          clear();                 // Throw away all else.
+          _root = culled_str_ll;   // Re-assign root.
+        }
+        else {
+          _destroy_str_ll(culled_str_ll);
+        }
       }
     }
   }
@@ -1086,10 +1090,14 @@ void StringBuilder::cull(int x) {
           // TODO: Prepend the collapsed string into the list, and eat fragments.
           //   there is no need whatsoever for this fxn to ever call malloc(), let
           //   alone incure almost triple the memory load (worst-case).
-          _collapse();   // TODO: Room to optimize here...
-          memcpy(culled_str_ll->str, (uint8_t*)(_root->str + x), REMAINING_LENGTH);
-          clear();                 // Throw away all else.
-          _root = culled_str_ll;   // Re-assign root.
+          if (0 == _collapse()) {   // TODO: Room to optimize here...
+            memcpy(culled_str_ll->str, (uint8_t*)(_root->str + x), REMAINING_LENGTH);
+            clear();                 // Throw away all else.
+            _root = culled_str_ll;   // Re-assign root.
+          }
+          else {
+            _destroy_str_ll(culled_str_ll);
+          }
         }
       }
     }
-- 
2.43.0


From b5ea4113ca85a627542d8bc89cb1e14c904673ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 40/55] fix: cull() accepted a range whose end overflowed

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 69f01ae..771e61a 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1040,7 +1040,7 @@ void StringBuilder::cull(int offset, int new_length) {
     clear();                //   the string, do that instead.
   }
   else if (offset >= 0) {                           // If the offset is positive...
-    if (CURRENT_LENGTH >= (offset + new_length)) {  // ...and the range exists...
+    if ((CURRENT_LENGTH >= offset) && ((CURRENT_LENGTH - offset) >= new_length)) {  // ...and the range exists...
       StrLL* culled_str_ll = _create_str_ll(new_length);
       if (nullptr != culled_str_ll) {
         // TODO: Prepend the collapsed string into the list, and eat fragments.
-- 
2.43.0


From 15f3e598eb14f0fb5e25b7ac4108c179c53da49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 41/55] fix: position_as_uint64() truncated long hexadecimal
 tokens to 8 digits

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 771e61a..fb70d1f 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -494,7 +494,7 @@ uint64_t StringBuilder::position_as_uint64(int pos) {
       len -= 2;
       temp += 2;
       // Only so big an int we can handle...
-      int max_bytes = (len > 16) ? 8 : len;
+      int max_bytes = (len > 16) ? 16 : len;
       for (int i = 0; i < max_bytes; i++) {
         switch (*(temp + i)) {
           case '0':  case '1':  case '2':  case '3':  case '4':
-- 
2.43.0


From 945607df9b19c7b59eeb97305fc933b05d07fdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 42/55] fix: locate() resumed from the wrong place after a
 partial match

---
 src/StringBuilder.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index fb70d1f..2ebb4ba 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1135,7 +1135,6 @@ int StringBuilder::locate(const uint8_t* NEEDLE, int NEEDLE_LEN, int start_offse
     int search_offset  = start_offset;
     int strll_offset   = start_offset;
     StrLL* src_ll      = _get_ll_containing_offset(_root, &strll_offset);
-    StrLL* retrace_ll  = src_ll;
     int retrace_offset = start_offset;
     while ((nullptr != src_ll) & (-1 == ret)) {
       if (*(src_ll->str + strll_offset) == *(NEEDLE + match_length++)) {
@@ -1145,7 +1144,6 @@ int StringBuilder::locate(const uint8_t* NEEDLE, int NEEDLE_LEN, int start_offse
         else if (1 == match_length) {
           // First hit on the needle. Store the current search state just in
           //   case we need to roll back to it after a failure to find a long needle.
-          retrace_ll  = src_ll;
           retrace_offset = search_offset;
         }
       }
@@ -1153,7 +1151,7 @@ int StringBuilder::locate(const uint8_t* NEEDLE, int NEEDLE_LEN, int start_offse
         if (match_length > 1) {
           search_offset = retrace_offset;
           strll_offset  = search_offset;
-          src_ll = _get_ll_containing_offset(retrace_ll, &strll_offset);
+          src_ll = _get_ll_containing_offset(_root, &strll_offset);
         }
         search_offset++;
         match_length  = 0;
-- 
2.43.0


From 22f1d801f04f8c17d38ac65a1c9c5114b6486d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 43/55] fix: replace() missed instances that began within a
 partial match

---
 src/StringBuilder.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 2ebb4ba..0f8f8f0 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1295,10 +1295,12 @@ int StringBuilder::replace(const char* needle, const char* replace) {
         }
       }
       else {                       // Bytes disagree.
-        if (1 < search_hit_idx) {  // If we were into a search, back out of our
-          remaining_search_len++;  //   postfixed iterator actions so the
-          intra_frag_idx--;        //   current byte gets compared against the
-        }                          //   first needle byte.
+        if (1 < search_hit_idx) {  // If we were into a search, resume it from the
+          //   byte following the one that began the partial match.
+          remaining_search_len += (search_hit_idx - 1);
+          intra_frag_idx = (HAYSTACK_LEN - remaining_search_len);
+          src_ll = _get_ll_containing_offset(_root, &intra_frag_idx);
+        }
         search_hit_idx = 0;        // Reset the search.
       }
 
-- 
2.43.0


From ae3d054dc6402f08866e61d521057c8299121e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 44/55] fix: replace() lost content if a replacement could not
 be allocated

---
 src/StringBuilder.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 0f8f8f0..98f462a 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1275,7 +1275,13 @@ int StringBuilder::replace(const char* needle, const char* replace) {
           if (0 < REPLACE_LEN) {
             // TODO: There are safety and minor speed-gains to be had by not
             //   doing it this way. implode(replace) when finished?
-            working_sb.concat(replace);
+            StrLL* replace_ll = _create_str_ll(REPLACE_LEN, (uint8_t*) replace);
+            if (nullptr != replace_ll) {
+              working_sb._stack_str_onto_list(replace_ll);
+            }
+            else {
+              allocation_failure = true;
+            }
           }
           ret++;   // We made a replacement.
 
-- 
2.43.0


From b33bd3d95d1718dfbb0d3bc397e5d7965e71a3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 45/55] fix: implode() refused two tokens of one byte each

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 98f462a..30ab36d 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1364,7 +1364,7 @@ int StringBuilder::implode(const char* delim) {
     const int DELIM_LEN     = strlen(delim);
     const int TOKD_STR_LEN  = length();
     const int TOK_COUNT     = count();
-    if ((DELIM_LEN > 0) & (TOKD_STR_LEN > 2) & (TOK_COUNT > 1)) {
+    if ((DELIM_LEN > 0) & (TOKD_STR_LEN >= 2) & (TOK_COUNT > 1)) {
       // In order for this operation to make sense, we need to have at least
       //   two tokens, and a total string length of at least 2 characters.
       const int TOTAL_STR_LEN = ((TOK_COUNT-1) * DELIM_LEN) + TOKD_STR_LEN;
-- 
2.43.0


From d5e5384e1497efa551e7e5cfb5e35563e23e7e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 46/55] fix: split() lost content if the string could not be
 collapsed

---
 src/StringBuilder.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 30ab36d..4ad163b 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1495,8 +1495,7 @@ int StringBuilder::chunk(const int CSIZE) {
 */
 int StringBuilder::split(const char* delims) {
   int return_value = 0;
-  if ((nullptr != _root) && (0 < _root->len)) {
-    _collapse();
+  if ((nullptr != _root) && (0 < _root->len) && (0 == _collapse())) {
     char* temp_str = strtok((char*) _root->str, delims);
     if (nullptr != temp_str) {
       StrLL* old_root = _root;
-- 
2.43.0


From f9cd125e4fa10b0ad5a932445d9295bd010162b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:13 +0000
Subject: [PATCH 47/55] fix: Base64Decoder's chunk length was never initialized

---
 src/Pipes/BufferAccepter/Base64/C3P_B64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/Base64/C3P_B64.h b/src/Pipes/BufferAccepter/Base64/C3P_B64.h
index 9f970a2..c7795a1 100644
--- a/src/Pipes/BufferAccepter/Base64/C3P_B64.h
+++ b/src/Pipes/BufferAccepter/Base64/C3P_B64.h
@@ -103,7 +103,7 @@ class Base64Encoder : public BufferCoDec {
 */
 class Base64Decoder : public BufferCoDec {
   public:
-    Base64Decoder(BufferAccepter* eff = nullptr) : BufferCoDec(eff) {};
+    Base64Decoder(BufferAccepter* eff = nullptr) : BufferCoDec(eff), _input_length(0) {};
     ~Base64Decoder() {};
 
     /* Implementation of BufferAccepter. */
-- 
2.43.0


From 1ea13f23f44314a08598a68385bca3e9e7767b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:22 +0000
Subject: [PATCH 48/55] fix: concatHandoffLimit() left the donor's remainder
 without its null-terminator

---
 src/StringBuilder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 4ad163b..196d0e1 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -717,6 +717,7 @@ void StringBuilder::concatHandoffLimit(StringBuilder* donar, unsigned int len_li
             *(ll_with_byte->str + i) = *(ll_with_byte->str + i + LEN_LEFT);
           }
           ll_with_byte->len = LEN_RIGHT;
+          *(ll_with_byte->str + LEN_RIGHT) = 0;  // Keep the null-terminator.
           donar->_root = ll_with_byte;    // Inform the donar instance...
 
           // Seek through the input and find the point where we need to snip.
-- 
2.43.0


From cf024db8763ff7ad84cfe46fcb0bd8045d484dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:46 +0000
Subject: [PATCH 49/55] fix: ElementPool::take() ignored the overdraw limit,
 and never allocated the pool

---
 src/ElementPool.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ElementPool.h b/src/ElementPool.h
index f268029..d9babd1 100644
--- a/src/ElementPool.h
+++ b/src/ElementPool.h
@@ -188,13 +188,15 @@ template <class T> bool ElementPool<T>::inPool(T* e) {
 
 
 /**
-* Remove an item from the preallocation pool an return it.
+* Remove an item from the preallocation pool an return it. If the pool is
+*   exhausted, an element will be taken from the heap, provided that the overdraw
+*   limit allows it.
 *
-* @return a reference to the preallocated element.
+* @return a reference to an element, or nullptr if there are none to be had.
 */
 template <class T> T* ElementPool<T>::take() {
-  T* ret = _list.get();
-  if (nullptr == ret) {
+  T* ret = (allocated() ? _list.get() : nullptr);
+  if ((nullptr == ret) && (_overdraws_outstanding() < _overdraw_limit)) {
     ret = new T();
     _overdraws++;
   }
-- 
2.43.0


From c83fe55ca8a7a0e3837bed55f37e14f28d82afec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 50/55] fix: TimeSeries3::_calculate_stdev() tested a member
 function's address rather than calling it

---
 src/TimeSeries/TimeSeries.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index 350956a..19696ef 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -952,7 +952,7 @@ template <class T> int8_t TimeSeries3<T>::_calculate_stdev() {
   if ((_window_size > 1) & windowFull()) {
     ret = 0;
     Vector3f64 deviation_sum;
-    if (_stale_mean) _calculate_mean();
+    if (_stale_mean()) _calculate_mean();
     for (uint32_t i = 0; i < _window_size; i++) {
       Vector3f64 temp{(double) samples[i].x, (double) samples[i].y, (double) samples[i].z};
       temp -= _mean;
-- 
2.43.0


From 70d7f60e21c2c27825d7af9cdc667cf3f354cddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 51/55] fix: TimeSeries::copyValueRange() missed the most
 recent sample, and accepted ranges that overflow

---
 src/TimeSeries/TimeSeries.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index 19696ef..9bc09bd 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -494,8 +494,9 @@ template <class T> int8_t TimeSeries<T>::copyValueRange(T* buf, const uint32_t C
     ret--;
     if (COUNT > 0) {
       ret--;
-      if (_samples_total >= (COUNT + OFFSET)) {  // Do so many samples exist?
-        const uint32_t PRE_MOD_IDX = (ABS_IDX ? OFFSET : ((windowSize() + OFFSET + _sample_idx) - (COUNT+1)));
+      // Do so many samples exist? (COUNT + OFFSET) might overflow.
+      if ((_samples_total >= COUNT) && ((_samples_total - COUNT) >= OFFSET)) {
+        const uint32_t PRE_MOD_IDX = (ABS_IDX ? OFFSET : ((windowSize() + OFFSET + _sample_idx) - COUNT));
         markClean();  // Do this here (specifically) to minimize concurrency grief.
         // TODO: Inefficient for the sake of expediency. Should be a split copy
         //   and a single modulus operation.
-- 
2.43.0


From 663c0e88a7d808fa0b7fe181a1efebf433fe3a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 52/55] fix: TimeSeries::median() overflowed on the sum of the
 two middle samples

---
 src/TimeSeries/TimeSeries.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index 9bc09bd..e3c38e8 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -640,7 +640,10 @@ template <class T> int8_t TimeSeries<T>::_calculate_median() {
       // ...otherwise, we take the mean to the two middle values.
       uint32_t lower = (_window_size-1) >> 1;
       uint32_t upper = lower + 1;
-      _median = (sorted[upper] + sorted[lower]) / 2;
+      // The sum of two values with the same sign might not be representable.
+      const T A = sorted[lower];
+      const T B = sorted[upper];
+      _median = (((A < T(0)) != (B < T(0))) ? ((A + B) / 2) : (A + ((B - A) / 2)));
     }
     _set_flags(true, TIMESERIES_FLAG_VALID_MEDIAN);
   }
-- 
2.43.0


From 6329899db80ae08e3ffdbd23161acf13f291a179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 53/55] fix: Base64Encoder::bufferAvailable() claimed more
 space than its output fits in

---
 src/Pipes/BufferAccepter/Base64/C3P_B64.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp b/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
index 9decb13..362450b 100644
--- a/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
+++ b/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
@@ -40,9 +40,8 @@ I have reproduced his original commentary, where it still applies. And may have
 
 #include "C3P_B64.h"
 
-// TODO: These are wrong. Calulate the real values once it works.
+// TODO: This is wrong. Calulate the real value once it works.
 #define BASE64_DECODE_SCALING_FACTOR 0.8
-#define BASE64_ENCODE_SCALING_FACTOR 1.2
 
 
 /*******************************************************************************
@@ -155,7 +154,8 @@ int8_t Base64Encoder::pushBuffer(StringBuilder* buf) {
 int32_t Base64Encoder::bufferAvailable() {
   int32_t ret = 0;
   if (nullptr != _efferant) {
-    ret = _efferant->bufferAvailable() * BASE64_ENCODE_SCALING_FACTOR;
+    // Every 3 bytes taken (or any remainder thereof) become 4 bytes downstream.
+    ret = (_efferant->bufferAvailable() / 4) * 3;
   }
   return ret;
 }
-- 
2.43.0


From 4215e47d2c06e86211678ec1bc6b7a4e4b52cd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:37 +0000
Subject: [PATCH 54/55] fix: the Base64 codecs refused a buffer of exactly the
 length they had offered to take

---
 src/Pipes/BufferAccepter/Base64/C3P_B64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp b/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
index 362450b..8d206c8 100644
--- a/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
+++ b/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
@@ -132,7 +132,7 @@ int8_t Base64Encoder::pushBuffer(StringBuilder* buf) {
     if ((TAKE_LEN > 0) && (TAKE_LEN <= PUSH_LEN)) {
       // If the pushed length is more than 0, and at least the size we need, make
       //   sure we'll have space for the result.
-      if (TAKE_LEN < AVAILABLE_LEN) {
+      if (TAKE_LEN <= AVAILABLE_LEN) {
         // Take the bytes, and transform them.
         StringBuilder tmp_src;
         StringBuilder tmp_dest;
@@ -350,7 +350,7 @@ int8_t Base64Decoder::pushBuffer(StringBuilder* buf) {
     if ((TAKE_LEN > 0) && (TAKE_LEN <= PUSH_LEN)) {
       // If the pushed length is more than 0, and at least the size we need, make
       //   sure we'll have space for the result.
-      if (TAKE_LEN < AVAILABLE_LEN) {
+      if (TAKE_LEN <= AVAILABLE_LEN) {
         // Take the bytes, and transform them.
         StringBuilder tmp_src;
         StringBuilder tmp_dest;
-- 
2.43.0


From 9cba32ad781cd5e7e225cc989eb49e3e0d494f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:25 +0000
Subject: [PATCH 55/55] fix: count StringBuilder fragments without wrapping at
 65536

count() wrapped to 16 bits, so implode() on a string of more than 65535
fragments reserved too little memory and wrote past the end of the heap
block, and concatHandoffPositions() refused positions that exist.
---
 src/StringBuilder.cpp | 4 ++--
 src/StringBuilder.h   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 196d0e1..2f1ecaa 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -307,8 +307,8 @@ bool StringBuilder::isEmpty(const bool strict) {
 *
 * @return The number of linked-lists that are being used to hold this string
 */
-unsigned short StringBuilder::count() {
-  unsigned short return_value = 0;
+unsigned int StringBuilder::count() {
+  unsigned int return_value = 0;
   StrLL* current = _root;
   while (current != nullptr) {
     return_value++;
diff --git a/src/StringBuilder.h b/src/StringBuilder.h
index a1bcb35..c7aef96 100644
--- a/src/StringBuilder.h
+++ b/src/StringBuilder.h
@@ -194,7 +194,7 @@ class StringBuilder {
     int      chunk(const int);          // Split the string into tokens by a uniform length.
     int      split(const char*);        // Split the string into tokens by the given string.
     int      implode(const char*);      // Given a delimiter, form a single string from all StrLLs.
-    uint16_t count();                   // Count the tokens.
+    unsigned int count();               // Count the tokens.
     char*    position(int);             // If the string has been split, get tokens with this.
     char*    position_trimmed(int);     // Same as position(int), but trims whitespace from the return.
     int      position_as_int(int);      // Same as position(int), but uses atoi() to return an integer.
-- 
2.43.0

