From a9172b9762c632bbc6591eee671b72d1f6068358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 01/85] fix: LinkedList::insert() reports allocation failure
 rather than writing through null

---
 src/LightLinkedList.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/LightLinkedList.h b/src/LightLinkedList.h
index b8ba35f..45c8824 100644
--- a/src/LightLinkedList.h
+++ b/src/LightLinkedList.h
@@ -117,15 +117,15 @@ template <class T> int LinkedList<T>::clear(void) {
 * @return the position in the list that the data was inserted, or -1 on failure.
 */
 template <class T> int LinkedList<T>::insert(T d) {
-  Node<T> *current;
+  Node<T> *current = (Node<T>*) malloc(sizeof(Node<T>));
+  if (nullptr == current) {
+    return -1;
+  }
   if (root == nullptr) {
-    root = (Node<T>*) malloc(sizeof(Node<T>));
-    current = root;
+    root = current;
   }
   else {
-    current = getLast();
-    current->next = (Node<T>*) malloc(sizeof(Node<T>));
-    current = current->next;
+    getLast()->next = current;
   }
   current->next = nullptr;
   current->data = d;
-- 
2.43.0


From 12214ff58677593e464a90f5c94854928e26804e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 02/85] fix: remove(T) removes every matching element when the
 first match is the head

---
 src/LightLinkedList.h | 2 +-
 src/PriorityQueue.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LightLinkedList.h b/src/LightLinkedList.h
index 45c8824..f179b00 100644
--- a/src/LightLinkedList.h
+++ b/src/LightLinkedList.h
@@ -268,7 +268,7 @@ template <class T> bool LinkedList<T>::remove(T test_data) {
       free(current);
       element_count--;
       return_value = true;
-      current = (nullptr == prior) ? nullptr : prior->next;
+      current = (nullptr == prior) ? root : prior->next;
     }
     else {
       prior = current;
diff --git a/src/PriorityQueue.h b/src/PriorityQueue.h
index f9004c8..89851a5 100644
--- a/src/PriorityQueue.h
+++ b/src/PriorityQueue.h
@@ -563,7 +563,7 @@ template <class T> bool PriorityQueue<T>::remove(T test_data) {
       free(current);
       element_count--;
       return_value = true;
-      current = (nullptr == prior) ? nullptr : prior->next;
+      current = (nullptr == prior) ? root : prior->next;
     }
     else {
       prior = current;
-- 
2.43.0


From 049007a21f1a5dc063ea4a8771410d18f2582334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:12 +0000
Subject: [PATCH 03/85] fix: uint32 refuses to be set from a negative int64

---
 src/C3PValue/C3PType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index d351aa5..f7bd17b 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1299,7 +1299,7 @@ template <> int8_t      C3PTypeConstraint<uint32_t>::set_from(void* dest, const
       }
       break;
     case TCode::INT64:
-      if (*((int64_t*) src) <= UINT32_MAX) {
+      if ((*((int64_t*) src) <= UINT32_MAX) & (*((int64_t*) src) >= 0)) {
         *d = (uint32_t) *((int64_t*) src);
         return 0;
       }
-- 
2.43.0


From 106fc78de9adcf9bae839b052fe616b6560ff2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:12 +0000
Subject: [PATCH 04/85] fix: uint8 set from an oversized uint16 does not read
 four bytes of it

---
 src/C3PValue/C3PType.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index f7bd17b..be7b9fb 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1047,6 +1047,7 @@ template <> int8_t      C3PTypeConstraint<uint8_t>::set_from(void* dest, const T
         *d = (uint8_t) *((uint16_t*) src);
         return 0;
       }
+      break;
     case TCode::UINT32:
       if (*((uint32_t*) src) <= UINT8_MAX) {
         *d = (uint8_t) *((uint32_t*) src);
-- 
2.43.0


From 770bbf821883de275052ac5dd68e3c6cd34bfeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:12 +0000
Subject: [PATCH 05/85] fix: int64 refuses to be set from a uint64 it cannot
 hold

---
 src/C3PValue/C3PType.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index be7b9fb..e052a85 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -892,9 +892,9 @@ template <> int8_t      C3PTypeConstraint<int64_t>::set_from(void* dest, const T
     case TCode::UINT32:     d = (int64_t) *((uint32_t*) src);   ret = 0;  break;
     case TCode::UINT64:
       {
-        int64_t s = _load_from_mem(src);
-        if (s <= INT64_MAX) {
-          d = s;
+        const uint64_t s = (uint64_t) _load_from_mem(src);
+        if (s <= (uint64_t) INT64_MAX) {
+          d = (int64_t) s;
           ret = 0;
         }
       }
-- 
2.43.0


From 9181acd88f2d87eef3c97c77e6619626c557f171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 06/85] fix: CBOR encoder writes both bytes of a 16-bit header
 for 64-bit integers

---
 src/cbor-cpp/cbor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 2d01cdc..dbfbc71 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -349,6 +349,7 @@ void encoder::write_type_value64(int major_type, uint64_t value) {
   else if(value < 65536ULL) {
     _out->put_byte((uint8_t) (major_type | 25));
     _out->put_byte((uint8_t) (value >> 8));
+    _out->put_byte((uint8_t) value);
   }
   else if(value < 4294967296ULL) {
     _out->put_byte((uint8_t) (major_type | 26));
-- 
2.43.0


From 8ee9c2ab55670e216b2b61e0cac005459bdd6fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 07/85] fix: CBOR input_stringbuilder reads 16-bit values in
 network byte-order

---
 src/cbor-cpp/cbor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index dbfbc71..624f98b 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -70,8 +70,8 @@ uint16_t input_stringbuilder::get_short() {
   if (nullptr != _str_bldr) {
     uint8_t buf[2] = {0, 0};
     const int THIS_SIZE = _str_bldr->copyToBuffer(buf, 2, _offset);
-    value |= ((uint16_t) buf[1] << 8);
-    value |= ((uint16_t) buf[0]);
+    value |= ((uint16_t) buf[0] << 8);
+    value |= ((uint16_t) buf[1]);
     _update_local_vars(THIS_SIZE);
   }
   return value;
-- 
2.43.0


From 12edb0c3a9e186744cf2e8bc3a6d9d0e7155d172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 08/85] fix: CBOR decoder delivers -256 for a one-byte negative
 argument of 255

---
 src/cbor-cpp/cbor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 624f98b..24a8280 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -677,7 +677,7 @@ void decoder::run() {
         switch(_currentLength) {
           case 1:
           {
-            uint8_t diff = _in->get_byte()+1;
+            const uint16_t diff = (uint16_t) (_in->get_byte()+1);
             if (diff < 128u) {
               _listener->on_integer((int8_t) -(diff));
             }
-- 
2.43.0


From 7f44d3327ea77a1c6207e551d3b94e26699a0a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 09/85] fix: CBOR decoder delivers -65536 for a two-byte
 negative argument of 65535

---
 src/cbor-cpp/cbor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 24a8280..97c2809 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -689,7 +689,7 @@ void decoder::run() {
           break;
           case 2:
           {
-            uint16_t diff = _in->get_short()+1;
+            const uint32_t diff = (uint32_t) _in->get_short()+1;
             if (diff < 32768u) {
               _listener->on_integer((int16_t) -(diff));
             }
-- 
2.43.0


From 78865990dcac433d08e95c5ea26a37fd382f2239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 10/85] fix: CBOR decoder does not deliver -2147483649 as
 INT32_MIN

---
 src/cbor-cpp/cbor.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 97c2809..4ec90ea 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -703,8 +703,6 @@ void decoder::run() {
           temp = _in->get_int();
           if(temp <= INT32_MAX) {
             _listener->on_integer(((int32_t) -(temp+1)));
-          } else if(temp == 2147483648u) {
-            _listener->on_integer((int32_t) INT32_MIN);
           } else {
             _listener->on_extra_integer(temp, -1);
           }
-- 
2.43.0


From 2bee876b5c503ff9ae37c5a9b3036e8231ff948a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 11/85] fix: CBOR decoder finishes an eight-byte negative
 integer and delivers it negated

---
 src/cbor-cpp/cbor.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 4ec90ea..2b3f6c4 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -709,7 +709,16 @@ void decoder::run() {
           _state = STATE_TYPE;
           break;
           case 8:
-          _listener->on_integer(_in->get_long());
+          {
+            const uint64_t n = _in->get_long();
+            if (n <= (uint64_t) INT64_MAX) {
+              _listener->on_integer((int64_t) (-1 - (int64_t) n));
+            }
+            else {
+              _listener->on_extra_integer(n, -1);
+            }
+          }
+          _state = STATE_TYPE;
           break;
         }
       } else break;
-- 
2.43.0


From b5c44fb052055de3b9328b9acbbe22249a51710a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:26 +0000
Subject: [PATCH 12/85] fix: CBOR decoder refuses byte and text lengths beyond
 INT32_MAX

---
 src/cbor-cpp/cbor.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 2b3f6c4..a0dcdf4 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -735,7 +735,13 @@ void decoder::run() {
           break;
           case 4:
           _currentLength = _in->get_int();
-          _state = STATE_BYTES_DATA;
+          if (_currentLength < 0) {
+            _state = STATE_ERROR;
+            _listener->on_error("extra long bytes");
+          }
+          else {
+            _state = STATE_BYTES_DATA;
+          }
           break;
           case 8:
           _state = STATE_ERROR;
@@ -763,7 +769,13 @@ void decoder::run() {
           break;
           case 4:
           _currentLength = _in->get_int();
-          _state = STATE_STRING_DATA;
+          if (_currentLength < 0) {
+            _state = STATE_ERROR;
+            _listener->on_error("extra long string");
+          }
+          else {
+            _state = STATE_STRING_DATA;
+          }
           break;
           case 8:
           _state = STATE_ERROR;
-- 
2.43.0


From 7912b5c76504e221b26d24f902a5ed939b2f0029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 13/85] fix: Base64Decoder initialises its input length

---
 src/Pipes/BufferAccepter/Base64/C3P_B64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/Base64/C3P_B64.h b/src/Pipes/BufferAccepter/Base64/C3P_B64.h
index 9f970a2..c7795a1 100644
--- a/src/Pipes/BufferAccepter/Base64/C3P_B64.h
+++ b/src/Pipes/BufferAccepter/Base64/C3P_B64.h
@@ -103,7 +103,7 @@ class Base64Encoder : public BufferCoDec {
 */
 class Base64Decoder : public BufferCoDec {
   public:
-    Base64Decoder(BufferAccepter* eff = nullptr) : BufferCoDec(eff) {};
+    Base64Decoder(BufferAccepter* eff = nullptr) : BufferCoDec(eff), _input_length(0) {};
     ~Base64Decoder() {};
 
     /* Implementation of BufferAccepter. */
-- 
2.43.0


From 3f8216989b901b92aa6567f6aad11eb741fbe3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 14/85] fix: concatHandoffLimit() honours a limit that ends on
 the first byte of a fragment

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 86eea3a..bf496a6 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -693,7 +693,7 @@ void StringBuilder::concatHandoffLimit(StringBuilder* donar, unsigned int len_li
     donar->_root = nullptr;          // Inform the donar instance...
     int offset = (len_limit - 1);    // Get the StrLL containing the last byte to be transfered.
     StrLL* ll_with_byte = _get_ll_containing_offset(old_root, &offset);
-    if ((nullptr != ll_with_byte) & (0 < offset)) {
+    if ((nullptr != ll_with_byte) & (0 <= offset)) {
       // We're going to leave some data with the donor. How much?
       if ((ll_with_byte->len - 1) == offset) {
         // The requested length fit neatly on a fragment boundary.
-- 
2.43.0


From 721ffebf90c7a11260aa671c1ae40f76668ab669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 15/85] fix: concatHandoffLimit() returns the content to the
 donor when the split cannot be allocated

---
 src/StringBuilder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index bf496a6..0bead83 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -734,6 +734,9 @@ void StringBuilder::concatHandoffLimit(StringBuilder* donar, unsigned int len_li
             _stack_str_onto_list(split_left);  // No leading whole fragments to take.
           }
         }
+        else {
+          donar->_root = old_root;   // Allocation failure. Return the source intact.
+        }
       }
     }
     else {
-- 
2.43.0


From 320861a1eda42702781ed93ba7dbaabb37596690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 16/85] fix: byteAt() returns 0 for a negative offset, as
 documented

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 0bead83..102cd60 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -363,7 +363,7 @@ uint8_t* StringBuilder::string() {
 */
 uint8_t StringBuilder::byteAt(const int OFFSET) {
   uint8_t ret = 0;
-  if (_root) {
+  if ((_root) && (0 <= OFFSET)) {
     int offset = OFFSET;
     StrLL* ll_with_byte = _get_ll_containing_offset(_root, &offset);
     if (nullptr != ll_with_byte) {
-- 
2.43.0


From c722a4ca8300b28a478f84840b1d3af0ac3e9f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 17/85] fix: concatHandoff(uint8_t*, int) releases the buffer
 when the stub cannot be allocated

---
 src/StringBuilder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 102cd60..017262b 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -838,6 +838,9 @@ void StringBuilder::concatHandoff(uint8_t* buf, int len) {
       nu_element->len = len;  //   separate free() on this member.
       _stack_str_onto_list(nu_element);
     }
+    else {
+      free(buf);  // Responsibility for the buffer was delegated to us.
+    }
     #if defined(__BUILD_HAS_PTHREADS)
       //pthread_mutex_unlock(&_mutex);
     #elif defined(__BUILD_HAS_FREERTOS)
-- 
2.43.0


From 1e98a4f0e2f2925dc4d5c18ad42d2ee06a160e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 18/85] fix: cull(int, int) does not overflow when testing the
 range

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 017262b..6e88696 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1027,7 +1027,7 @@ void StringBuilder::cull(int offset, int new_length) {
     clear();                //   the string, do that instead.
   }
   else if (offset >= 0) {                           // If the offset is positive...
-    if (CURRENT_LENGTH >= (offset + new_length)) {  // ...and the range exists...
+    if ((offset <= CURRENT_LENGTH) && (new_length <= (CURRENT_LENGTH - offset))) {  // ...and the range exists...
       StrLL* culled_str_ll = _create_str_ll(new_length);
       if (nullptr != culled_str_ll) {
         // TODO: Prepend the collapsed string into the list, and eat fragments.
-- 
2.43.0


From 73b7a205603664908dab58aedabfb657eadba7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 19/85] fix: cull() leaves the string alone when it could not
 be collapsed

---
 src/StringBuilder.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 6e88696..2573b2b 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1033,10 +1033,14 @@ void StringBuilder::cull(int offset, int new_length) {
         // TODO: Prepend the collapsed string into the list, and eat fragments.
         //   there is no need whatsoever for this fxn to ever call malloc(), let
         //   alone incure almost triple the memory load (worst-case).
-        _collapse();   // TODO: Room to optimize here...
-        memcpy(culled_str_ll->str, (_root->str + offset), new_length);
-        clear();                 // Throw away all else.
-        _root = culled_str_ll;   // Re-assign root.
+        if (0 == _collapse()) {    // TODO: Room to optimize here...
+          memcpy(culled_str_ll->str, (_root->str + offset), new_length);
+          clear();                 // Throw away all else.
+          _root = culled_str_ll;   // Re-assign root.
+        }
+        else {
+          _destroy_str_ll(culled_str_ll);
+        }
       }
     }
   }
@@ -1073,10 +1077,14 @@ void StringBuilder::cull(int x) {
           // TODO: Prepend the collapsed string into the list, and eat fragments.
           //   there is no need whatsoever for this fxn to ever call malloc(), let
           //   alone incure almost triple the memory load (worst-case).
-          _collapse();   // TODO: Room to optimize here...
-          memcpy(culled_str_ll->str, (uint8_t*)(_root->str + x), REMAINING_LENGTH);
-          clear();                 // Throw away all else.
-          _root = culled_str_ll;   // Re-assign root.
+          if (0 == _collapse()) {    // TODO: Room to optimize here...
+            memcpy(culled_str_ll->str, (uint8_t*)(_root->str + x), REMAINING_LENGTH);
+            clear();                 // Throw away all else.
+            _root = culled_str_ll;   // Re-assign root.
+          }
+          else {
+            _destroy_str_ll(culled_str_ll);
+          }
         }
       }
     }
-- 
2.43.0


From a5d8b0c70b7dd78616aaac9e3f6d39793534453b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 20/85] fix: locate() resumes a failed partial match at the
 right fragment

---
 src/StringBuilder.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 2573b2b..a57f5a0 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1122,7 +1122,6 @@ int StringBuilder::locate(const uint8_t* NEEDLE, int NEEDLE_LEN, int start_offse
     int search_offset  = start_offset;
     int strll_offset   = start_offset;
     StrLL* src_ll      = _get_ll_containing_offset(_root, &strll_offset);
-    StrLL* retrace_ll  = src_ll;
     int retrace_offset = start_offset;
     while ((nullptr != src_ll) & (-1 == ret)) {
       if (*(src_ll->str + strll_offset) == *(NEEDLE + match_length++)) {
@@ -1132,7 +1131,6 @@ int StringBuilder::locate(const uint8_t* NEEDLE, int NEEDLE_LEN, int start_offse
         else if (1 == match_length) {
           // First hit on the needle. Store the current search state just in
           //   case we need to roll back to it after a failure to find a long needle.
-          retrace_ll  = src_ll;
           retrace_offset = search_offset;
         }
       }
@@ -1140,7 +1138,7 @@ int StringBuilder::locate(const uint8_t* NEEDLE, int NEEDLE_LEN, int start_offse
         if (match_length > 1) {
           search_offset = retrace_offset;
           strll_offset  = search_offset;
-          src_ll = _get_ll_containing_offset(retrace_ll, &strll_offset);
+          src_ll = _get_ll_containing_offset(_root, &strll_offset);
         }
         search_offset++;
         match_length  = 0;
-- 
2.43.0


From c0fbe093c3d76c851116b11f396807981837f109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 21/85] fix: locate() finds nothing from a negative offset

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index a57f5a0..ea569a7 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1117,7 +1117,7 @@ void StringBuilder::trim() {
 */
 int StringBuilder::locate(const uint8_t* NEEDLE, int NEEDLE_LEN, int start_offset) {
   int ret = -1;
-  if ((nullptr != _root) & (nullptr != NEEDLE) & (NEEDLE_LEN > 0)) {
+  if ((nullptr != _root) & (nullptr != NEEDLE) & (NEEDLE_LEN > 0) & (start_offset >= 0)) {
     int match_length   = 0;
     int search_offset  = start_offset;
     int strll_offset   = start_offset;
-- 
2.43.0


From 3981b4ebd97ec99c688b2b35b96f5bd90fd05bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 22/85] fix: replace() finds occurrences that overlap a failed
 partial match

---
 src/StringBuilder.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index ea569a7..0de3072 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1282,10 +1282,14 @@ int StringBuilder::replace(const char* needle, const char* replace) {
         }
       }
       else {                       // Bytes disagree.
-        if (1 < search_hit_idx) {  // If we were into a search, back out of our
-          remaining_search_len++;  //   postfixed iterator actions so the
-          intra_frag_idx--;        //   current byte gets compared against the
-        }                          //   first needle byte.
+        if (1 < search_hit_idx) {
+          // If we were into a search, back out of our iterator actions so that
+          //   the byte following the one that began the failed match gets
+          //   compared against the first needle byte.
+          remaining_search_len += (search_hit_idx - 1);
+          intra_frag_idx = (HAYSTACK_LEN - remaining_search_len);
+          src_ll = _get_ll_containing_offset(_root, &intra_frag_idx);
+        }
         search_hit_idx = 0;        // Reset the search.
       }
 
-- 
2.43.0


From b47527e8338e727e6c23ec0a3560e37b3cc23d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 23/85] fix: replace() reports failure to allocate the
 replacement

---
 src/StringBuilder.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 0de3072..d48d41a 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1262,7 +1262,13 @@ int StringBuilder::replace(const char* needle, const char* replace) {
           if (0 < REPLACE_LEN) {
             // TODO: There are safety and minor speed-gains to be had by not
             //   doing it this way. implode(replace) when finished?
-            working_sb.concat(replace);
+            StrLL* replace_ll = _create_str_ll(REPLACE_LEN, (uint8_t*) replace);
+            if (nullptr != replace_ll) {
+              working_sb._stack_str_onto_list(replace_ll);
+            }
+            else {
+              allocation_failure = true;
+            }
           }
           ret++;   // We made a replacement.
 
-- 
2.43.0


From cbc39cf0ad0021a9e2daeb9690f04d4ac26f1514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 24/85] fix: chunk() reports failure to collapse the string

---
 src/StringBuilder.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index d48d41a..0b7910b 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1402,8 +1402,7 @@ int StringBuilder::chunk(const int CSIZE) {
     if (TOTAL_STR_LEN <= CSIZE) {
       // If the requested chunk size holds the whole string in one chunk, we
       //   only need to collapse.
-      _collapse();
-      ret = 1;
+      ret = (0 == _collapse()) ? 1 : -1;
     }
     else {
       // It looks like we'll need to toss the fragments. Create a new instance
-- 
2.43.0


From c6e20db69f9e9f0a1f34f0bbc068c598adc5bcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 25/85] fix: split() does not discard fragments when the string
 could not be collapsed

---
 src/StringBuilder.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 0b7910b..d68b454 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1483,8 +1483,7 @@ int StringBuilder::chunk(const int CSIZE) {
 */
 int StringBuilder::split(const char* delims) {
   int return_value = 0;
-  if ((nullptr != _root) && (0 < _root->len)) {
-    _collapse();
+  if ((nullptr != _root) && (0 < _root->len) && (0 == _collapse())) {
     char* temp_str = strtok((char*) _root->str, delims);
     if (nullptr != temp_str) {
       StrLL* old_root = _root;
-- 
2.43.0


From 16eb5fa6cb42edcc41ec5c2d680c5a907f031b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 26/85] fix: implode() joins two tokens of one character

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index d68b454..9358c34 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1353,7 +1353,7 @@ int StringBuilder::implode(const char* delim) {
     const int DELIM_LEN     = strlen(delim);
     const int TOKD_STR_LEN  = length();
     const int TOK_COUNT     = count();
-    if ((DELIM_LEN > 0) & (TOKD_STR_LEN > 2) & (TOK_COUNT > 1)) {
+    if ((DELIM_LEN > 0) & (TOKD_STR_LEN >= 2) & (TOK_COUNT > 1)) {
       // In order for this operation to make sense, we need to have at least
       //   two tokens, and a total string length of at least 2 characters.
       const int TOTAL_STR_LEN = ((TOK_COUNT-1) * DELIM_LEN) + TOKD_STR_LEN;
-- 
2.43.0


From f9b13915caf10874c04ab3e15d27c01656973f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 27/85] fix: position_as_uint64() takes up to sixteen hex
 digits

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 9358c34..2415071 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -494,7 +494,7 @@ uint64_t StringBuilder::position_as_uint64(int pos) {
       len -= 2;
       temp += 2;
       // Only so big an int we can handle...
-      int max_bytes = (len > 16) ? 8 : len;
+      int max_bytes = (len > 16) ? 16 : len;
       for (int i = 0; i < max_bytes; i++) {
         switch (*(temp + i)) {
           case '0':  case '1':  case '2':  case '3':  case '4':
-- 
2.43.0


From d8eabb0c2913f6e95f142873fb00881edeb36db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 28/85] fix: copyToBuffer() copies nothing from an offset
 beyond INT32_MAX

---
 src/StringBuilder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 2415071..4fbf63d 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -992,9 +992,9 @@ void StringBuilder::concat(String s) {
 */
 int StringBuilder::copyToBuffer(uint8_t* buf, const uint32_t LIMIT_LEN, const uint32_t START_OFFSET) {
   int ret = 0;
-  const int SUBJECT_LENGTH = (length() - START_OFFSET);
-  if (0 < SUBJECT_LENGTH) {
-    const uint32_t COPY_LENGTH = strict_min(LIMIT_LEN, (uint32_t) SUBJECT_LENGTH);
+  const uint32_t CURRENT_LENGTH = length();
+  if (START_OFFSET < CURRENT_LENGTH) {
+    const uint32_t COPY_LENGTH = strict_min(LIMIT_LEN, (CURRENT_LENGTH - START_OFFSET));
     int strll_offset   = START_OFFSET;
     StrLL* src_ll      = _get_ll_containing_offset(_root, &strll_offset);
     //StrLL* starting_ll = src_ll;
-- 
2.43.0


From d468f63ed03ff8b9c8f8210b8f014a7fc4dcfc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 29/85] fix: concatLimit() takes the whole source for a limit
 beyond INT32_MAX

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 4fbf63d..0398c38 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -764,7 +764,7 @@ void StringBuilder::concatLimit(StringBuilder* donar, unsigned int len_limit) {
     pthread_mutex_lock(&donar->_mutex);
   #endif
   if ((0 < len_limit) && (nullptr != donar) && (!donar->isEmpty(true))) {
-    const int CONTENT_LEN = strict_min((int32_t) len_limit, (int32_t) donar->length());
+    const int CONTENT_LEN = strict_min((uint32_t) len_limit, (uint32_t) donar->length());
     if (0 < CONTENT_LEN) {
       StrLL* frag = _create_str_ll(CONTENT_LEN, donar->_root, 0);
       if (nullptr != frag) {
-- 
2.43.0


From ddbe6df71255e9f13aa7581774a4f568d00897f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 30/85] fix: concat(double) does not overrun its buffer on
 large values

---
 src/StringBuilder.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 0398c38..dc4dadd 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -900,10 +900,7 @@ void StringBuilder::concat(unsigned int nu) {
   concat(temp);
 }
 void StringBuilder::concat(double nu) {
-  char temp[24];
-  memset(temp, 0, sizeof(temp));
-  sprintf(temp, "%f", nu);
-  concat(temp);
+  concatf("%f", nu);   // The whole part might be hundreds of digits.
 }
 
 
-- 
2.43.0


From e210707b584607494dcf5bedb8cd36ae9646a935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 31/85] fix: concatf() sizes its buffer from the formatted
 length

---
 src/StringBuilder.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index dc4dadd..8095f9f 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -948,15 +948,14 @@ int StringBuilder::concatf(const char* format, ...) {
 * @return the byte count written to this StringBuilder, or negative on failure.
 */
 int StringBuilder::concatf(const char* format, va_list args) {
-  int len = strlen(format);
-  unsigned short f_codes = 0;  // Count how many format codes are in use...
-  for (unsigned short i = 0; i < len; i++) {  if (*(format+i) == '%') f_codes++; }
-  // Allocate (hopefully) more space than we will need....
-  const int est_len = len + 512 + (f_codes * 15);   // TODO: Iterate on failure of vsprintf().
-  char temp[est_len];
-  memset(temp, 0, est_len);
-  int ret = 0;
-  ret = vsprintf(temp, format, args);
+  // Measure first, so that the space allocated is always the space needed.
+  va_list args_for_measure;
+  va_copy(args_for_measure, args);
+  const int est_len = vsnprintf(nullptr, 0, format, args_for_measure);
+  va_end(args_for_measure);
+  if (est_len <= 0) {  return est_len;  }
+  char temp[est_len + 1];
+  const int ret = vsnprintf(temp, (est_len + 1), format, args);
   if (ret > 0) concat((char *) temp);
   return ret;
 }
-- 
2.43.0


From d32696b4b3382bb775b58c0f73dd5790a2fc4759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:43 +0000
Subject: [PATCH 32/85] fix: concatHandoffLimit() takes the leading fragment
 when the limit falls in the second

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 8095f9f..1ac8e9c 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -726,7 +726,7 @@ void StringBuilder::concatHandoffLimit(StringBuilder* donar, unsigned int len_li
           }
           // To the extent that we can simply move memory references around, do
           //   so. All leading StrLL that fits within the limit is taken directly.
-          if (current != old_root) {
+          if (ll_with_byte != old_root) {
             current->next = split_left;       // Snip the list where we left it.
             _stack_str_onto_list(old_root);   // Attach the fragment list before
           }
-- 
2.43.0


From a8f396f4e7d411933d110847d10ea6ff69ec6292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:31 +0000
Subject: [PATCH 33/85] fix: replace() matches needle bytes above 0x7F

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 1ac8e9c..ee0a523 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1237,7 +1237,7 @@ int StringBuilder::replace(const char* needle, const char* replace) {
     //   needlessly, roll through its fragment list and compare as we go.
     // One byte per-loop is compared against the delimiter.
     while ((!allocation_failure) & (remaining_search_len-- > 0) & (nullptr != src_ll)) {
-      if (*(src_ll->str + intra_frag_idx++) == *(needle + search_hit_idx++)) {
+      if (*(src_ll->str + intra_frag_idx++) == (uint8_t) *(needle + search_hit_idx++)) {
         // Bytes match.
         if (NEEDLE_LEN == search_hit_idx) {  // If it is the conclusion of a match...
           // Create a copy of the string up-to the first byte of the needle...
-- 
2.43.0


From 0b3b66ae8fa3b8a6a73e7de0d9cb106d4a32f186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:11 +0000
Subject: [PATCH 34/85] fix: Base64 codecs accept no more than their efferant
 has room for

---
 src/Pipes/BufferAccepter/Base64/C3P_B64.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp b/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
index 9decb13..7ed0e66 100644
--- a/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
+++ b/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
@@ -40,11 +40,6 @@ I have reproduced his original commentary, where it still applies. And may have
 
 #include "C3P_B64.h"
 
-// TODO: These are wrong. Calulate the real values once it works.
-#define BASE64_DECODE_SCALING_FACTOR 0.8
-#define BASE64_ENCODE_SCALING_FACTOR 1.2
-
-
 /*******************************************************************************
 *      _______.___________.    ___   .___________. __    ______     _______.
 *     /       |           |   /   \  |           ||  |  /      |   /       |
@@ -133,7 +128,7 @@ int8_t Base64Encoder::pushBuffer(StringBuilder* buf) {
     if ((TAKE_LEN > 0) && (TAKE_LEN <= PUSH_LEN)) {
       // If the pushed length is more than 0, and at least the size we need, make
       //   sure we'll have space for the result.
-      if (TAKE_LEN < AVAILABLE_LEN) {
+      if (TAKE_LEN <= AVAILABLE_LEN) {
         // Take the bytes, and transform them.
         StringBuilder tmp_src;
         StringBuilder tmp_dest;
@@ -155,7 +150,7 @@ int8_t Base64Encoder::pushBuffer(StringBuilder* buf) {
 int32_t Base64Encoder::bufferAvailable() {
   int32_t ret = 0;
   if (nullptr != _efferant) {
-    ret = _efferant->bufferAvailable() * BASE64_ENCODE_SCALING_FACTOR;
+    ret = (_efferant->bufferAvailable() / 4) * 3;   // Three bytes become four.
   }
   return ret;
 }
@@ -350,7 +345,7 @@ int8_t Base64Decoder::pushBuffer(StringBuilder* buf) {
     if ((TAKE_LEN > 0) && (TAKE_LEN <= PUSH_LEN)) {
       // If the pushed length is more than 0, and at least the size we need, make
       //   sure we'll have space for the result.
-      if (TAKE_LEN < AVAILABLE_LEN) {
+      if (TAKE_LEN <= AVAILABLE_LEN) {
         // Take the bytes, and transform them.
         StringBuilder tmp_src;
         StringBuilder tmp_dest;
@@ -372,7 +367,8 @@ int8_t Base64Decoder::pushBuffer(StringBuilder* buf) {
 int32_t Base64Decoder::bufferAvailable() {
   int32_t ret = 0;
   if (nullptr != _efferant) {
-    ret = _efferant->bufferAvailable() * BASE64_DECODE_SCALING_FACTOR;
+    const int32_t GROUPS = (_efferant->bufferAvailable() / 3);
+    ret = strict_min((int32_t) GROUPS, (int32_t) (INT32_MAX / 4)) * 4;   // Four characters become three.
   }
   return ret;
 }
-- 
2.43.0


From 55e8ed38aacbd43e518d7ca3fc7b26123fb4f566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 35/85] fix: fix: BufferAccepterFork tracks how far each side
 is ahead

When one side of the fork took less than the other, the distance was stored
with the wrong sign, so that the next push read memory before the offered
buffer and gave the faster side its bytes again. A push of which nothing was
taken returned 0 rather than -1, and a null buffer was dereferenced.
---
 src/Pipes/BufferAccepter/BufferAccepter.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/Pipes/BufferAccepter/BufferAccepter.cpp b/src/Pipes/BufferAccepter/BufferAccepter.cpp
index deff6d9..3f0e9da 100644
--- a/src/Pipes/BufferAccepter/BufferAccepter.cpp
+++ b/src/Pipes/BufferAccepter/BufferAccepter.cpp
@@ -59,15 +59,15 @@ int32_t StringBuilderSink::bufferAvailable() {
 
 int8_t BufferAccepterFork::pushBuffer(StringBuilder* buf) {
   int8_t ret = -1;
-  const int32_t BYTES_OFFERED = buf->length();
+  const int32_t BYTES_OFFERED = ((nullptr != buf) ? buf->length() : 0);
   const int32_t BYTES_TO_TAKE = strict_min(bufferAvailable(), BYTES_OFFERED);
   if (0 < BYTES_TO_TAKE) {
     // We could be risky at this point, but we do a pedantic deep-copy instead.
     // Note the drift distance for each side of the fork.
     const int32_t LEFT_OFFER_LEN  = (BYTES_TO_TAKE - _left_drift);
     const int32_t RIGHT_OFFER_LEN = (BYTES_TO_TAKE - _right_drift);
-    int32_t left_range_covered  = BYTES_TO_TAKE;
-    int32_t right_range_covered = BYTES_TO_TAKE;
+    int32_t left_range_covered  = strict_max(BYTES_TO_TAKE, _left_drift);
+    int32_t right_range_covered = strict_max(BYTES_TO_TAKE, _right_drift);
     if ((nullptr != _left_hand) & (LEFT_OFFER_LEN > 0)) {
       StringBuilder deep_copy(buf->string() + _left_drift, LEFT_OFFER_LEN);
       _left_hand->pushBuffer(&deep_copy);
@@ -80,10 +80,12 @@ int8_t BufferAccepterFork::pushBuffer(StringBuilder* buf) {
     }
     const int32_t TOTAL_TAKEN = strict_min(left_range_covered, right_range_covered);
     buf->cull(TOTAL_TAKEN);
-    _left_drift  = (TOTAL_TAKEN - left_range_covered);
-    _right_drift = (TOTAL_TAKEN - right_range_covered);
+    _left_drift  = (left_range_covered - TOTAL_TAKEN);
+    _right_drift = (right_range_covered - TOTAL_TAKEN);
 
-    ret = (BYTES_OFFERED == TOTAL_TAKEN) ? 1 : 0;
+    if (TOTAL_TAKEN > 0) {
+      ret = (BYTES_OFFERED == TOTAL_TAKEN) ? 1 : 0;
+    }
   }
   return ret;
 }
-- 
2.43.0


From d52194f600c570b237a19e1dd857df5788debf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 36/85] fix: fix: LineEndingCoDec initialises its options

The replacement mask and the two call-break options were never given a value,
so a freshly constructed codec searched for arbitrary terminators or held
everything back.
---
 src/Pipes/BufferAccepter/LineCoDec/LineCoDec.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/LineCoDec/LineCoDec.h b/src/Pipes/BufferAccepter/LineCoDec/LineCoDec.h
index 9c70bfd..099d920 100644
--- a/src/Pipes/BufferAccepter/LineCoDec/LineCoDec.h
+++ b/src/Pipes/BufferAccepter/LineCoDec/LineCoDec.h
@@ -134,7 +134,8 @@ Rules:
 */
 class LineEndingCoDec : public BufferCoDec {
   public:
-    LineEndingCoDec(BufferAccepter* targ = nullptr, LineTerm t = LineTerm::ZEROBYTE) : BufferCoDec(targ), _term_seq(t) {};
+    LineEndingCoDec(BufferAccepter* targ = nullptr, LineTerm t = LineTerm::ZEROBYTE) : BufferCoDec(targ), _term_seq(t),
+      _replacement_mask(0), _hold_until_break(false), _isometric_call_to_break(false) {};
     ~LineEndingCoDec() {};
 
     /* Implementation of BufferAccepter. */
-- 
2.43.0


From 5f78a2165091245840113a2d1e3f786728a322b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 37/85] fix: fix: LineEndingCoDec returns -1 when it took
 nothing

The BufferAccepter contract reserves 0 for a partial take.
---
 src/Pipes/BufferAccepter/LineCoDec/LineCoDec.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/LineCoDec/LineCoDec.cpp b/src/Pipes/BufferAccepter/LineCoDec/LineCoDec.cpp
index 5b87aa1..2677724 100644
--- a/src/Pipes/BufferAccepter/LineCoDec/LineCoDec.cpp
+++ b/src/Pipes/BufferAccepter/LineCoDec/LineCoDec.cpp
@@ -153,7 +153,10 @@ int8_t LineEndingCoDec::pushBuffer(StringBuilder* buf) {
       }
     }
 
-    ret = (((INPUT_LENGTH - buf->length()) < INPUT_LENGTH) ? 0 : 1);
+    const int32_t TAKEN_LENGTH = (INPUT_LENGTH - buf->length());
+    if (TAKEN_LENGTH > 0) {
+      ret = ((TAKEN_LENGTH < INPUT_LENGTH) ? 0 : 1);
+    }
   }
 
   return ret;
-- 
2.43.0


From e174df021d437887f04828c14d4fd230cf43dd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 38/85] fix: Base64 codecs survive running out of memory

When the bytes could not be moved, collapsed, or handed to the result, the
codecs read beyond a fragment, and reported bytes as taken that they neither
delivered nor removed from the source.
---
 src/Pipes/BufferAccepter/Base64/C3P_B64.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp b/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
index 7ed0e66..08d381a 100644
--- a/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
+++ b/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
@@ -133,7 +133,7 @@ int8_t Base64Encoder::pushBuffer(StringBuilder* buf) {
         StringBuilder tmp_src;
         StringBuilder tmp_dest;
         tmp_src.concatHandoffLimit(buf, TAKE_LEN);
-        if (0 == _encode(&tmp_src, &tmp_dest)) {
+        if ((TAKE_LEN == tmp_src.length()) && (0 == _encode(&tmp_src, &tmp_dest))) {
           _efferant->pushBuffer(&tmp_dest);
           ret = (PUSH_LEN == TAKE_LEN) ? 1 : 0;
         }
@@ -168,6 +168,7 @@ int8_t Base64Encoder::_encode(StringBuilder* src, StringBuilder* dest) {
   // I look at your data like the stream of unsigned bytes that it is
   const uint8_t* src_buf = (const uint8_t*) src->string();
   const int32_t  src_len = src->length();
+  if (src->count() > 1) {  return ret;  }   // No memory to collapse the source.
 
   // PAD. Base64 is all about breaking the input into SEXTETS, or 6-bit inputs.
   // If you have 1 byte of input, that's 8 bits, not 6. So it won't fit.
@@ -325,7 +326,9 @@ int8_t Base64Encoder::_encode(StringBuilder* src, StringBuilder* dest) {
     }
     base64String[i] = 0; // NULL TERMINATOR! ;)
     dest->concatHandoff((uint8_t*) base64String, i);
-    ret = 0;  // It is no longer possible to fail.
+    if (dest->length() == i) {   // False, if there was no memory to claim it.
+      ret = 0;
+    }
   }
 
   return ret;
@@ -350,7 +353,7 @@ int8_t Base64Decoder::pushBuffer(StringBuilder* buf) {
         StringBuilder tmp_src;
         StringBuilder tmp_dest;
         tmp_src.concatHandoffLimit(buf, TAKE_LEN);
-        if (0 == _decode(&tmp_src, &tmp_dest)) {
+        if ((TAKE_LEN == tmp_src.length()) && (0 == _decode(&tmp_src, &tmp_dest))) {
           _efferant->pushBuffer(&tmp_dest);
           ret = (PUSH_LEN == TAKE_LEN) ? 1 : 0;
         }
@@ -381,6 +384,8 @@ int8_t Base64Decoder::_decode(StringBuilder* src, StringBuilder* dest) {
   const uint8_t* src_buf = (const uint8_t*) src->string();
   const int32_t  src_len = src->length();
 
+  if (src->count() > 1) {  return ret;  }   // No memory to collapse the source.
+
   #ifndef CONFIG_NIBBLEANDAHALF_UNSAFE_DECODE
     if (0 != _b64_str_integrity(src_buf, src_len))  return -2;
   #endif
@@ -474,8 +479,10 @@ int8_t Base64Decoder::_decode(StringBuilder* src, StringBuilder* dest) {
     }
   }
 
-  ret = 0;
   dest->concatHandoff(bin, cb);
+  if (dest->length() == cb) {   // False, if there was no memory to claim it.
+    ret = 0;
+  }
   return ret;
 }
 
-- 
2.43.0


From e18f68945c21b01921be4705a6231588d2c65303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 39/85] fix: cbor::output_static::put_bytes() checks the length
 against the room left

With nothing written yet, a zero-length write wrapped around and was
refused, and a negative length passed the check and reached memcpy().
---
 src/cbor-cpp/cbor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index a0dcdf4..90167c1 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -225,7 +225,7 @@ int8_t output_static::put_byte(uint8_t value) {
 }
 
 int8_t output_static::put_bytes(const uint8_t* data, int size) {
-  if (_offset + size - 1 < _capacity) {
+  if ((0 <= size) && ((uint32_t) size <= (_capacity - _offset))) {
     memcpy(_buffer + _offset, data, size);
     _offset += size;
     return 0;
-- 
2.43.0


From fb560f5905f4d1c2d4482ac7f8582e5f4a79a202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 40/85] fix: cbor::output_static releases its malloc() buffer
 with free()

---
 src/cbor-cpp/cbor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 90167c1..90768db 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -208,7 +208,7 @@ output_static::output_static(uint32_t cap, uint8_t* buf) : _buffer(buf), _capaci
 
 output_static::~output_static() {
   if (_should_free & (nullptr != _buffer)) {
-    delete _buffer;
+    free(_buffer);
     _buffer = nullptr;
   }
 }
-- 
2.43.0


From 79a1d25fb66ba31e4e7d91c6a8cd3fc59ad2ebbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 41/85] fix: PeriodicTimeout::remaining() reads the clock once

When the period ran out between the test for expiry and the second reading
of the clock, the result wrapped around to nearly the full range.
---
 src/TimerTools/TimerTools.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/TimerTools/TimerTools.h b/src/TimerTools/TimerTools.h
index 0469d71..19b77af 100644
--- a/src/TimerTools/TimerTools.h
+++ b/src/TimerTools/TimerTools.h
@@ -81,7 +81,8 @@ class PeriodicTimeout {
     inline bool enabled() {                return (0 < _period);            };
     inline unsigned long period() {        return _period;                  };
     inline unsigned long remaining() {
-      return (expired() ? 0 : _until(_mark + _period));
+      const unsigned long ELAPSED = _since(_mark);
+      return ((_period <= ELAPSED) ? 0 : (_period - ELAPSED));
     };
     inline bool     expired() {
       return ((0 == _period) || (_period <= _since(_mark)));
-- 
2.43.0


From 1be6d0eaee72eaded10eb99840071f9e4ef24595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 42/85] fix: PeriodicTimeout::trigger() works for the longest
 period

With a period of ULONG_MAX the sum wrapped, and the timeout was restarted
rather than triggered.
---
 src/TimerTools/TimerTools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimerTools/TimerTools.h b/src/TimerTools/TimerTools.h
index 19b77af..93460c2 100644
--- a/src/TimerTools/TimerTools.h
+++ b/src/TimerTools/TimerTools.h
@@ -74,7 +74,7 @@ class PeriodicTimeout {
   public:
     virtual ~PeriodicTimeout() {};      // Featureless destructor.
 
-    inline void trigger() {                _mark = (_now() - (_period+1));  };
+    inline void trigger() {                _mark = (_now() - _period);      };
     inline void reset() {                  _mark = _now();                  };
     inline void reset(unsigned long p) {   _mark = _now(); _period = p;     };
     inline void period(unsigned long p) {  _period = p;                     };
-- 
2.43.0


From c1f298713f16ce6305e5fa7b2a974916cf64840f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 43/85] fix: StopWatch starts out stopped

The start mark was left uninitialised, so that markStop() without a prior
markStart() recorded an arbitrary run time.
---
 src/TimerTools/StopWatch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimerTools/StopWatch.cpp b/src/TimerTools/StopWatch.cpp
index 3f8b4af..47f8eb6 100644
--- a/src/TimerTools/StopWatch.cpp
+++ b/src/TimerTools/StopWatch.cpp
@@ -28,7 +28,7 @@ limitations under the License.
 /**
 * Constructor
 */
-StopWatch::StopWatch(uint32_t _t) : _tag(_t) {
+StopWatch::StopWatch(uint32_t _t) : _tag(_t), _start_micros(0) {
   reset();
 }
 
-- 
2.43.0


From 9bda8e560d1f2808af2d8b65b9d648a1b337c507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:23 +0000
Subject: [PATCH 44/85] fix: stringToTimestamp() counts the leap day of the
 last leap year

In the three years after a leap year, the day added by it was left out until
the next leap year came around.
---
 src/CppPotpourri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CppPotpourri.cpp b/src/CppPotpourri.cpp
index 9fd5626..1d68933 100644
--- a/src/CppPotpourri.cpp
+++ b/src/CppPotpourri.cpp
@@ -79,7 +79,7 @@ uint64_t stringToTimestamp(const char* str) {
 
   if (year >= 1972) {
     // Check for leap year.
-    days += ((year - 1972) >> 2);  // Extra days caused by leap-years.
+    days += ((year - 1969) >> 2);  // Extra days caused by past leap-years.
     if ((((year - 1972) % 4) == 0) && (month > 2)) {
       // If it is at-least March of this year, and this year is a leap-year, add another 86400.
       days++;
-- 
2.43.0


From 8b57aa32f8eff9ce5473b64213b65f02739f29aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:11 +0000
Subject: [PATCH 45/85] fix: C3PLogger keeps what its sink did not take

A push that was taken in part returns 0, and was treated as taken entirely:
The rest of the line was lost, or the next line overtook the backlog.
---
 src/AbstractPlatform.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/AbstractPlatform.cpp b/src/AbstractPlatform.cpp
index d4494d2..a7b149e 100644
--- a/src/AbstractPlatform.cpp
+++ b/src/AbstractPlatform.cpp
@@ -484,9 +484,9 @@ void C3PLogger::_store_or_forward(StringBuilder* log_line) {
   if (nullptr != _sink) {
     bool backlog_remaining = !_log.isEmpty();
     if (backlog_remaining) {
-      backlog_remaining = (0 != _sink->pushBuffer(&_log));
+      backlog_remaining = (1 != _sink->pushBuffer(&_log));
     }
-    if (!backlog_remaining && (0 == _sink->pushBuffer(log_line))) {
+    if (!backlog_remaining && (1 == _sink->pushBuffer(log_line))) {
       // NOTE: Short-circuit evaluation above is important for ordering.
       store_to_buffer = false;
     }
-- 
2.43.0


From 2f32ba0ff80c63a92655892395543e4c2aa281cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:35 +0000
Subject: [PATCH 46/85] fix: M2MMsgHdr counts all bytes of its length field

The total length of a message left out the second and third byte of the
length field. The receiver took the payload to be shorter than it was, and
read the last byte or two of every message beyond 255 bytes as the start of
the next one.
---
 src/M2MLink/M2MMsgHdr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/M2MLink/M2MMsgHdr.cpp b/src/M2MLink/M2MMsgHdr.cpp
index 6316f1a..86cc5da 100644
--- a/src/M2MLink/M2MMsgHdr.cpp
+++ b/src/M2MLink/M2MMsgHdr.cpp
@@ -58,7 +58,7 @@ M2MMsgHdr::M2MMsgHdr(M2MMsgCode m, uint8_t pl_len, uint8_t f, uint32_t i) :
   if (needed_total_sz > 0x0000FFFE) calcd_len_sz++;
   if (needed_total_sz <= 0x00FFFFFD) {  // Anything larger than this is invalid.
     flags = ((flags & ~M2MMSGHDR_FLAG_ENCODES_LENGTH_BYTES) | (calcd_len_sz << 4));
-    msg_len = needed_total_sz;
+    msg_len = needed_total_sz + (calcd_len_sz - 1);   // The minimum header has one byte of length.
     chk_byte = (uint8_t) (flags + msg_len + (uint8_t)msg_code + M2MLINK_SERIALIZATION_VERSION);
   }
 }
@@ -102,7 +102,7 @@ bool M2MMsgHdr::set_payload_length(uint32_t pl_len) {
   if (needed_total_sz > 0x0000FFFE) calcd_len_sz++;
   if (needed_total_sz <= 0x00FFFFFD) {  // Anything larger than this is invalid.
     flags = ((flags & ~M2MMSGHDR_FLAG_ENCODES_LENGTH_BYTES) | (calcd_len_sz << 4));
-    msg_len = needed_total_sz;
+    msg_len = needed_total_sz + (calcd_len_sz - 1);   // The minimum header has one byte of length.
     chk_byte = calc_hdr_chcksm();
     ret = true;
   }
-- 
2.43.0


From 14315a3fd8ee04fa35844f7a0df543b347f75acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:35 +0000
Subject: [PATCH 47/85] fix: M2MMsgHdr::set_payload_length() refuses lengths
 that wrap around

---
 src/M2MLink/M2MMsgHdr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MMsgHdr.cpp b/src/M2MLink/M2MMsgHdr.cpp
index 86cc5da..4669b97 100644
--- a/src/M2MLink/M2MMsgHdr.cpp
+++ b/src/M2MLink/M2MMsgHdr.cpp
@@ -100,7 +100,7 @@ bool M2MMsgHdr::set_payload_length(uint32_t pl_len) {
   uint32_t needed_total_sz = id_length() + pl_len + M2MMSGHDR_MINIMUM_HEADER_SIZE;
   if (needed_total_sz > 0x000000FF) calcd_len_sz++;
   if (needed_total_sz > 0x0000FFFE) calcd_len_sz++;
-  if (needed_total_sz <= 0x00FFFFFD) {  // Anything larger than this is invalid.
+  if ((pl_len <= needed_total_sz) & (needed_total_sz <= 0x00FFFFFD)) {  // Anything larger than this is invalid.
     flags = ((flags & ~M2MMSGHDR_FLAG_ENCODES_LENGTH_BYTES) | (calcd_len_sz << 4));
     msg_len = needed_total_sz + (calcd_len_sz - 1);   // The minimum header has one byte of length.
     chk_byte = calc_hdr_chcksm();
-- 
2.43.0


From c8defb4a59811b237799ccaca93f6c9a59738c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:35 +0000
Subject: [PATCH 48/85] fix: M2MMsg refuses a header whose length cannot hold
 the header itself

A length field smaller than the header gave a negative payload length, which
no amount of input could complete: The link waited for it forever. A header
without a length field was taken as a message of no bytes, and its checksum
could be read from beyond the buffer.
---
 src/M2MLink/M2MMsg.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/M2MLink/M2MMsg.cpp b/src/M2MLink/M2MMsg.cpp
index 9def5e4..a1a77f7 100644
--- a/src/M2MLink/M2MMsg.cpp
+++ b/src/M2MLink/M2MMsg.cpp
@@ -60,13 +60,17 @@ int8_t M2MMsg::attempt_header_parse(M2MMsgHdr* hdr, StringBuilder* dat_in) {
 
     const uint8_t len_l = hdr->len_length();
     const uint8_t id_l  = hdr->id_length();
-    if (hdr->header_length() <= AVAILABLE_LEN) {
+    const int HDR_LEN = hdr->header_length();
+    if (0 == HDR_LEN) {
+      ret = -3;   // The length field is not optional.
+    }
+    else if (HDR_LEN <= AVAILABLE_LEN) {
       // Write the multibyte value as big-endian.
       for (uint8_t i = 0; i < len_l; i++) hdr->msg_len = ((hdr->msg_len << 8) | *(tmp_buf++));
       for (uint8_t i = 0; i < id_l; i++)  hdr->msg_id  = ((hdr->msg_id << 8)  | *(tmp_buf++));
       hdr->chk_byte = *(tmp_buf++);
       ret = -3;
-      if (hdr->chk_byte == hdr->calc_hdr_chcksm()) {       // Does the checksum match?
+      if ((hdr->total_length() >= HDR_LEN) && (hdr->chk_byte == hdr->calc_hdr_chcksm())) {   // Does the checksum match?
         ret = 1;
         if (0 < hdr->payload_length()) {
           ret = (hdr->total_length() > AVAILABLE_LEN) ? 0 : 2;
-- 
2.43.0


From 95dcd43aa0f6cf259ac4057254a0f614f9b11d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:24 +0000
Subject: [PATCH 49/85] fix: M2MMsg refuses to send a payload that it could not
 serialize

---
 src/M2MLink/M2MMsg.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/M2MLink/M2MMsg.cpp b/src/M2MLink/M2MMsg.cpp
index a1a77f7..41f01af 100644
--- a/src/M2MLink/M2MMsg.cpp
+++ b/src/M2MLink/M2MMsg.cpp
@@ -334,10 +334,11 @@ int M2MMsg::serialize(StringBuilder* buf) {
     int payload_len = 0;
     if (nullptr != _kvp) {
       ret--;
-      if (0 == _kvp->serialize(&payload, _encoding)) {
-        ret--;
-        payload_len = payload.length();
+      if (0 != _kvp->serialize(&payload, _encoding)) {
+        return ret;   // Without its payload, this would be a different message.
       }
+      ret--;
+      payload_len = payload.length();
     }
     if (_header.set_payload_length(payload_len)) {
       ret--;
-- 
2.43.0


From 7a7a100ae956ebdc0c13dddcfec70ab670648dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:51 +0000
Subject: [PATCH 50/85] fix: centi and deci do not share the symbol of milli

---
 src/EnumeratedTypeCodes.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/EnumeratedTypeCodes.cpp b/src/EnumeratedTypeCodes.cpp
index c340344..92ce16b 100644
--- a/src/EnumeratedTypeCodes.cpp
+++ b/src/EnumeratedTypeCodes.cpp
@@ -36,8 +36,8 @@ const char* const SIUnitToStr(const int8_t OOM, const bool sym) {
     case -9:   return (sym ? "n" : "nano");
     case -6:   return (sym ? "u" : "micro");
     case -3:   return (sym ? "m" : "milli");
-    case -2:   return (sym ? "m" : "centi");
-    case -1:   return (sym ? "m" : "deci");
+    case -2:   return (sym ? "c" : "centi");
+    case -1:   return (sym ? "d" : "deci");
     case 0:    return "";
     case 1:    return (sym ? "da" : "deca");
     case 2:    return (sym ? "h" : "hecto");
-- 
2.43.0


From 76dc7b0ebda47c2aaf26d72f7c95ceba28b24648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:51 +0000
Subject: [PATCH 51/85] fix: define metricPrefixStr() under the name it is
 declared by

---
 src/EnumeratedTypeCodes.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/EnumeratedTypeCodes.cpp b/src/EnumeratedTypeCodes.cpp
index 92ce16b..81ddd9d 100644
--- a/src/EnumeratedTypeCodes.cpp
+++ b/src/EnumeratedTypeCodes.cpp
@@ -29,7 +29,7 @@ TODO: Might-should adopt some IANA standard code-spaces here? Is there a
 /*******************************************************************************
 * Support functions for dealing with SIUnit codes.                             *
 *******************************************************************************/
-const char* const SIUnitToStr(const int8_t OOM, const bool sym) {
+const char* const metricPrefixStr(const int8_t OOM, const bool sym) {
   switch (OOM) {
     case -15:  return (sym ? "f" : "femto");
     case -12:  return (sym ? "p" : "pico");
@@ -110,7 +110,7 @@ void SIUnitToStr(const SIUnit* UC_STR, StringBuilder* output, const bool sym) {
           case SIUnit::META_ORDER_OF_MAGNITUDE:
             oom = (int8_t) *cur_ptr++;
             // Modify the unit with the SI prefix, if called for.
-            output->concat(SIUnitToStr(oom, sym));
+            output->concat(metricPrefixStr(oom, sym));
             oom = 0;
             break;
           case SIUnit::META_DIMENSIONALITY:
-- 
2.43.0


From b5973b2244cafe16296b348e2d3d5bccf9ef641c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:51 +0000
Subject: [PATCH 52/85] fix: the argument of META_DIMENSIONALITY is not printed
 as a unit

---
 src/EnumeratedTypeCodes.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/EnumeratedTypeCodes.cpp b/src/EnumeratedTypeCodes.cpp
index 81ddd9d..eecd028 100644
--- a/src/EnumeratedTypeCodes.cpp
+++ b/src/EnumeratedTypeCodes.cpp
@@ -114,6 +114,7 @@ void SIUnitToStr(const SIUnit* UC_STR, StringBuilder* output, const bool sym) {
             oom = 0;
             break;
           case SIUnit::META_DIMENSIONALITY:
+            cur_ptr++;   // The argument is not a unit.
             break;
           case SIUnit::META_LITERAL_TCODE:
             {  // TODO: Assumes an int8 (wrongly, eventually).
-- 
2.43.0


From 31eb304c35f3c39b32be72ee2f1f75c9c385796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 53/85] fix: SERVICE_LIST messages have a name

---
 src/M2MLink/M2MLink.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 6ad4df1..0080ca8 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -77,6 +77,7 @@ const char* const M2MLink::msgCodeStr(const M2MMsgCode CODE) {
     case M2MMsgCode::WHO:                return "WHO";
     case M2MMsgCode::DHT_FXN:            return "DHT_FXN";
     case M2MMsgCode::APPLICATION:        return "APPLICATION";
+    case M2MMsgCode::SERVICE_LIST:       return "SERVICE_LIST";
     case M2MMsgCode::SERVICE_SLOT_0:  case M2MMsgCode::SERVICE_SLOT_1:
     case M2MMsgCode::SERVICE_SLOT_2:  case M2MMsgCode::SERVICE_SLOT_3:
     case M2MMsgCode::SERVICE_SLOT_4:  case M2MMsgCode::SERVICE_SLOT_5:
-- 
2.43.0


From 429f5b7a9e09718db0617295e586c1273f1fc497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 54/85] fix: the last bytes of a message are taken without
 waiting for four of them

---
 src/M2MLink/M2MLink.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 0080ca8..1a9df88 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1196,7 +1196,7 @@ int8_t M2MLink::_process_input_buffer() {
   }
 
   if (proc_fallthru) {
-    if (_inbound_buf.length() >= 4) {
+    if ((nullptr != _working) || (_inbound_buf.length() >= M2MMSGHDR_MINIMUM_HEADER_SIZE)) {
       if (nullptr == _working) {
         M2MMsgHdr _header;
         int8_t ret_header = M2MMsg::attempt_header_parse(&_header, &_inbound_buf);
-- 
2.43.0


From 878751bf0e26bc18bde2b98efd628c2145745967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 55/85] fix: a message dropped from a full inbound queue is
 released

---
 src/M2MLink/M2MLink.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 1a9df88..5a7f414 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1233,6 +1233,7 @@ int8_t M2MLink::_process_input_buffer() {
             }
             else {
               c3p_log(LOG_LEV_WARN, __PRETTY_FUNCTION__, "Link 0x%08x inbound message queue flood.\n", _session_tag);
+              _reclaim_m2mmsg(_working);
             }
           }
           else {
-- 
2.43.0


From f97976696543b7e95e066bc8cfc2d689e28f545b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 56/85] fix: a reply releases exactly the sent message that was
 waiting for it

---
 src/M2MLink/M2MLink.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 5a7f414..35e6c96 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -676,6 +676,11 @@ int8_t M2MLink::_churn_inbound() {
       c3p_log(LOG_LEV_INFO, __PRETTY_FUNCTION__, &tmp_log);
     }
 
+    if (temp->isReply()) {
+      // Whatever becomes of this message, the one it answers is done waiting.
+      _clear_waiting_send_by_id(temp->uniqueId());
+    }
+
     switch (temp->msgCode()) {
       case M2MMsgCode::SYNC_KEEPALIVE:
         // We got a sync message. Is it a reply?
@@ -863,9 +868,6 @@ int8_t M2MLink::_churn_inbound() {
     }
 
     if (gc_message) {
-      if (temp->isReply()) {
-        _clear_waiting_send_by_id(temp->uniqueId());
-      }
       _reclaim_m2mmsg(temp);
     }
   }
@@ -951,13 +953,16 @@ int8_t M2MLink::_churn_outbound() {
 */
 int8_t M2MLink::_clear_waiting_send_by_id(uint32_t id) {
   int8_t ret = 0;
-  for (int i = 0; i < _outbound_messages.size(); i++) {
-    M2MMsg* temp = _outbound_messages.get(i);
+  int i = 0;
+  while (i < _outbound_messages.size()) {
+    M2MMsg* temp = _outbound_messages.get(i++);
     if (nullptr != temp) {
-      if (id == temp->uniqueId()) {
+      if ((id == temp->uniqueId()) && temp->wasSent() && temp->expectsReply()) {
         temp->markACKd();
         _outbound_messages.remove(temp);
-        ret = 1;
+        _reclaim_m2mmsg(temp);
+        ret++;
+        i--;   // The next message is in this place now.
       }
     }
   }
-- 
2.43.0


From 7861f57ef4936ad534169f60c44d2c41021cf70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 57/85] fix: a message for a service slot that does not exist
 reads no memory outside of the list

---
 src/M2MLink/M2MLink.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 35e6c96..794cff4 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1134,11 +1134,8 @@ int8_t M2MLink::_invoke_msg_callback(M2MMsg* msg) {
 */
 int8_t M2MLink::_offer_msg_to_service(uint8_t slot, M2MMsg* msg) {
   int8_t ret = -1;
-  if (CONFIG_C3PLINK_SERVICE_SLOTS > slot) {
-    ret++;
-  }
-  if (nullptr != _svc_list[slot]) {   // Call the callback, if it is set.
-    ret++;
+  if ((CONFIG_C3PLINK_SERVICE_SLOTS > slot) && (nullptr != _svc_list[slot])) {   // Call the callback, if it is set.
+    ret += 2;
     _svc_list[slot]->_handle_msg(_session_tag, msg);
     if (BusOpcode::TX == msg->direction()) {
       // If the message is now marked as TX, it means the application wants to
-- 
2.43.0


From b83bc630c9df33e3e8d2f3c9b7434e5637f41b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 58/85] fix: the answer to CONNECT is released after it was
 sent

---
 src/M2MLink/M2MLink.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 794cff4..12b4702 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -714,10 +714,7 @@ int8_t M2MLink::_churn_inbound() {
           _flags.set(M2MLINK_FLAG_ESTABLISHED);
         }
         else if (temp->expectsReply()) {
-          if (0 == temp->ack()) {
-            gc_message = false;
-          }
-          else if (_verbosity >= LOG_LEV_ERROR) c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "Link 0x%08x Failed to reply to CONNECT\n", _session_tag);
+          if ((0 != temp->ack()) && (_verbosity >= LOG_LEV_ERROR)) c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "Link 0x%08x Failed to reply to CONNECT\n", _session_tag);
           //if (_verbosity >= LOG_LEV_INFO) {
           //  StringBuilder tmp_log;
           //  tmp_log.concatf("Link 0x%08x responding with...\n", _session_tag);
-- 
2.43.0


From b429a0113f272dab209cca11afab28117c9e778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 59/85] fix: a LOG message without a readable payload is not
 dereferenced

---
 src/M2MLink/M2MLink.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 12b4702..d9f0ae0 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -979,7 +979,7 @@ int8_t M2MLink::_handle_msg_log(M2MMsg* msg) {
   if (_flags.value(M2MLINK_FLAG_ALLOW_LOG_WRITE)) {   // Will we allow a write to our log?
     ret++;
     KeyValuePair* inbound_kvp = nullptr;
-    if (0 == msg->getPayload(&inbound_kvp)) {
+    if ((0 == msg->getPayload(&inbound_kvp)) && (nullptr != inbound_kvp)) {
       char* inbound_log = nullptr;
       if (0 == inbound_kvp->valueWithKey("b", &inbound_log)) {
         // TODO: Surround with randomly-generated tags to prevent confusion.
-- 
2.43.0


From 54debb65502690b5a81fe0f74f9466c8cd1e5c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 60/85] fix: the beginning of a sync packet at the end of the
 buffer is kept

---
 src/M2MLink/M2MLink.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index d9f0ae0..e690ee5 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1363,12 +1363,11 @@ int8_t M2MLink::_process_for_sync() {
   }
   else {
     // Without finding a sync packet, we drop the data.
-    // Cull to a modulus of 4 bytes so as not to drop data we haven't tested.
-    const uint32_t CULL_LEN = ((uint32_t) AVAILABLE_LEN) & 0xFFFFFFFC;
-    if (0 < CULL_LEN) {   // clear() is cheaper than cull().
+    // The last bytes might be the beginning of a sync packet. Keep them.
+    const int CULL_LEN = AVAILABLE_LEN - (M2MMSGHDR_MINIMUM_HEADER_SIZE - 1);
+    if (0 < CULL_LEN) {
       ret = 0;
-      if ((uint32_t)AVAILABLE_LEN == CULL_LEN) {  _inbound_buf.clear();  }
-      else {  _inbound_buf.cull(CULL_LEN);  }
+      _inbound_buf.cull(CULL_LEN);
     }
   }
   if (_verbosity >= LOG_LEV_DEBUG) {
-- 
2.43.0


From 320226c1111e8c2bb28e2bfc69fff02199f25b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 61/85] fix: M2MLink logs failures at the verbosity that asks
 for them, and about messages that exist

---
 src/M2MLink/M2MLink.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index e690ee5..af3d69b 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -615,10 +615,10 @@ int8_t M2MLink::_send_msg(M2MMsg* msg) {
       }
     }
   }
-  if ((0 > ret) & (LOG_LEV_ERROR >= _verbosity)) {
+  if ((0 > ret) & (_verbosity >= LOG_LEV_ERROR)) {
     StringBuilder tmp_log;
     tmp_log.concatf("Link 0x%08x failed in _send_msg(): %d\n", _session_tag, ret);
-    msg->printDebug(&tmp_log);
+    if (nullptr != msg) msg->printDebug(&tmp_log);
     c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, &tmp_log);
   }
   return ret;
@@ -1417,7 +1417,7 @@ int8_t M2MLink::_send_connect_message() {
     if (_verbosity >= LOG_LEV_CRIT) {
       StringBuilder tmp_log;
       tmp_log.concatf("Link 0x%08x failed to serialize a connect header.\n", _session_tag);
-      _working->printDebug(&tmp_log);
+      connect_msg.printDebug(&tmp_log);
       c3p_log(LOG_LEV_CRIT, __PRETTY_FUNCTION__, &tmp_log);
     }
   }
-- 
2.43.0


From bb29e0d6a1cd25c0b0223c41e13c3d5563f1d622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 62/85] fix: writeRemoteLog() consumes its buffer in any case,
 as documented

---
 src/M2MLink/M2MLink.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index af3d69b..2c0549f 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -392,10 +392,10 @@ int8_t M2MLink::writeRemoteLog(StringBuilder* outbound_log, bool need_reply) {
             ret = 0;
           }
         }
-        outbound_log->clear();  // Free the original buffer.
         if (gc_message) _reclaim_m2mmsg(msg);
       }
     }
+    outbound_log->clear();  // Free the original buffer.
   }
   return ret;
 }
-- 
2.43.0


From 3fb7fd717f00e3260fe7b6f7471b0f289abe7040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 63/85] fix: an inbound message releases the payload that it
 unpacked

---
 src/M2MLink/M2MMsg.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/M2MLink/M2MMsg.cpp b/src/M2MLink/M2MMsg.cpp
index 41f01af..8b57a09 100644
--- a/src/M2MLink/M2MMsg.cpp
+++ b/src/M2MLink/M2MMsg.cpp
@@ -134,6 +134,10 @@ M2MMsg::M2MMsg(M2MMsgHdr* hdr, BusOpcode d) : _header(hdr), _op(d) {
 * Destructor.
 */
 M2MMsg::~M2MMsg() {
+  if (nullptr != _kvp) {
+    delete _kvp;   // Whatever we hold past a call was unpacked by us.
+    _kvp = nullptr;
+  }
 }
 
 
@@ -160,6 +164,10 @@ void M2MMsg::wipe() {
   _flags       = 0;
   _header.wipe();
   _accumulator.clear();
+  if (nullptr != _kvp) {
+    delete _kvp;
+    _kvp = nullptr;
+  }
 }
 
 
@@ -238,11 +246,15 @@ int M2MMsg::reply(KeyValuePair* kvp, bool reply_expected) {
     _header.expectsReply(reply_expected);
     _header.isReply(true);
     _accumulator.clear();
+    if (nullptr != _kvp) {
+      delete _kvp;   // The payload that came in.
+    }
     _kvp = kvp;
     _class_clear_flag(M2MMSG_FLAG_ACCUMULATOR_COMPLETE);
     if (0 == serialize(&_accumulator)) {
       ret = 0;
     }
+    _kvp = nullptr;   // The new payload still belongs to the caller.
   }
   return ret;
 }
-- 
2.43.0


From 5c6c40bf2ae6462a581bea2ab0feeaf46f276bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 64/85] fix: payloads that M2MLink packs and unpacks for itself
 are released

---
 src/M2MLink/M2MLink.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 2c0549f..9362bd7 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -786,6 +786,11 @@ int8_t M2MLink::_churn_inbound() {
           }
         }
 
+        if (nullptr != kvps_rxd) {
+          delete kvps_rxd;
+          kvps_rxd = nullptr;
+        }
+
         if (temp->isReply()) {
           // TODO: Check if we require auth, and if so, do we have a remote identity?
           // We might choose to HANGUP if counterparty won't cooperate.
@@ -798,8 +803,8 @@ int8_t M2MLink::_churn_inbound() {
           // We are being queried about our Identity.
           if (_id_loc) {
             // If we have one assigned, serialize and relay it as a reply.
-            KeyValuePair* a = new KeyValuePair("ident", _id_loc);
-            int8_t ret_local = temp->reply(a, true);
+            KeyValuePair a("ident", _id_loc);
+            int8_t ret_local = temp->reply(&a, true);
             const uint8_t VERB_LEV = (0 > ret_local) ? LOG_LEV_ERROR : LOG_LEV_INFO;
             if (_verbosity >= VERB_LEV) {
               c3p_log(VERB_LEV, __PRETTY_FUNCTION__, "Link 0x%08x reply to WHO returns %u.\n", _session_tag, ret_local);
@@ -988,11 +993,13 @@ int8_t M2MLink::_handle_msg_log(M2MMsg* msg) {
       else {
         if (LOG_LEV_NOTICE <= _verbosity) c3p_log(LOG_LEV_NOTICE, __PRETTY_FUNCTION__, "Link 0x%08x failed to decompose LOG message.\n", _session_tag);
       }
-      //delete inbound_kvp;
     }
     else {
       if (LOG_LEV_NOTICE <= _verbosity) c3p_log(LOG_LEV_NOTICE, __PRETTY_FUNCTION__, "Link 0x%08x failed to find LOG payload.\n", _session_tag);
     }
+    if (nullptr != inbound_kvp) {
+      delete inbound_kvp;
+    }
   }
   if (msg->expectsReply()) {
     // Regardless of if we wrote log or not, ack the message so it won't be
@@ -1474,8 +1481,8 @@ int8_t M2MLink::_send_who_message() {
   if (nullptr != msg) {
     ret--;
     if (_id_loc) {
-      KeyValuePair* a = new KeyValuePair("ident", _id_loc);
-      msg->setPayload(a);
+      KeyValuePair a("ident", _id_loc);
+      msg->setPayload(&a);
     }
     if (0 == _send_msg(msg)) {
       ret = 0;
-- 
2.43.0


From 87f054522f707f39dee37929cd628d274c3cf5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 65/85] fix: a message without a payload is not sent as nothing
 when it is sent again

---
 src/M2MLink/M2MMsg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MMsg.cpp b/src/M2MLink/M2MMsg.cpp
index 8b57a09..b2b3707 100644
--- a/src/M2MLink/M2MMsg.cpp
+++ b/src/M2MLink/M2MMsg.cpp
@@ -360,7 +360,7 @@ int M2MMsg::serialize(StringBuilder* buf) {
         if (!payload.isEmpty()) {
           buf->concatHandoff(&payload);
         }
-        _class_set_flag(M2MMSG_FLAG_ACCUMULATOR_COMPLETE);
+        if (buf == &_accumulator) _class_set_flag(M2MMSG_FLAG_ACCUMULATOR_COMPLETE);
         ret = 0;
       }
     }
-- 
2.43.0


From 8de60d3d716062eae7593a14dad53ade6684c4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 66/85] fix: messages that the transport refuses keep their
 place in the outbound queue

---
 src/M2MLink/M2MLink.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 9362bd7..9e83872 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -887,10 +887,11 @@ int8_t M2MLink::_churn_outbound() {
   int8_t ret = 0;
   if (_outbound_messages.hasNext()) {
     int current_priority = _outbound_messages.getPriority(0);
-    M2MMsg* temp = _outbound_messages.dequeue();
+    M2MMsg* temp = _outbound_messages.get(0);
     if (nullptr != temp) {
       int new_priority = (temp->msgCode() == M2MMsgCode::APPLICATION) ? M2MLINK_PRIORITY_APP : M2MLINK_PRIORITY_INTERNAL;
       bool gc_msg    = false;
+      bool was_handled = (M2MLINK_PRIORITY_WAITING_FOR_ACK == current_priority);
       bool will_send = !temp->wasSent();
       switch (current_priority) {
         case M2MLINK_PRIORITY_WAITING_FOR_ACK:
@@ -919,6 +920,7 @@ int8_t M2MLink::_churn_outbound() {
             // If the buffer was moved to the transport driver...
             temp->markSent();
             new_priority = M2MLINK_PRIORITY_WAITING_FOR_ACK;
+            was_handled  = true;
             gc_msg = !temp->expectsReply();
             // Some internal message types have implications upon
             //   being successfully sent.
@@ -934,11 +936,13 @@ int8_t M2MLink::_churn_outbound() {
         _outbound_messages.remove(temp);
         _reclaim_m2mmsg(temp);
       }
-      else {
+      else if (was_handled) {
         // NOTE: We skip the queue-size check, considering that we just pulled
         //   this object from this very queue.
+        _outbound_messages.remove(temp);
         _outbound_messages.insert(temp, new_priority);
       }
+      // If the transport refused the message, it keeps its place in the queue.
     }
   }
   return ret;
-- 
2.43.0


From b58cbf3d12a9c012b84da8ec95e537503b1d5d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 67/85] fix: hangup without grace does not wait for the
 counterparty

---
 src/M2MLink/M2MLink.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 9e83872..5b7f417 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -328,6 +328,7 @@ int8_t M2MLink::hangup(bool graceful) {
     _purge_inbound();
     _purge_outbound();
     ret = _fsm_set_route(1, M2MLinkState::HUNGUP);
+    _flags.set(M2MLINK_FLAG_HANGUP_RXD | M2MLINK_FLAG_HANGUP_TXD);  // Don't wait for the counterparty.
   }
   return ret;
 }
@@ -1538,16 +1539,17 @@ int8_t M2MLink::_fsm_poll() {
     //   preceeded by sync packets.
     case M2MLinkState::SYNC_RESYNC:
       fsm_advance = (_flags.value(M2MLINK_FLAG_SYNC_INCOMING) & _flags.value(M2MLINK_FLAG_SYNC_REPLY_RXD));
+      fsm_advance |= _fsm_is_next_pos(M2MLinkState::HUNGUP);
       break;
 
     // Exit conditions: We've exchanged CONNECT messages.
     case M2MLinkState::SYNC_TENTATIVE:
-      fsm_advance = _flags.value(M2MLINK_FLAG_ESTABLISHED);
+      fsm_advance = (_flags.value(M2MLINK_FLAG_ESTABLISHED) || _fsm_is_next_pos(M2MLinkState::HUNGUP));
       break;
 
     // Exit conditions: An acceptable authentication has happened.
     case M2MLinkState::PENDING_AUTH:
-      fsm_advance = _flags.value(M2MLINK_FLAG_AUTHD);
+      fsm_advance = (_flags.value(M2MLINK_FLAG_AUTHD) || _fsm_is_next_pos(M2MLinkState::HUNGUP));
       break;
 
     // Exit conditions: These states are canonically stable. So we advance when
-- 
2.43.0


From f2a97cd7bf570a1299b46efeaf39071efa613540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 68/85] fix: a link that is destroyed releases the identity of
 its counterparty

---
 src/M2MLink/M2MLink.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 5b7f417..d07269e 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -191,6 +191,10 @@ M2MLink::~M2MLink() {
     _reclaim_m2mmsg(_working);
     _working = nullptr;
   }
+  if (nullptr != _id_remote) {
+    delete _id_remote;
+    _id_remote = nullptr;
+  }
 }
 
 
-- 
2.43.0


From aee3ead8fb7ce0d0c70401d21069485586ce8099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 69/85] fix: an answer to CONNECT that is repeated does not
 make a live link live again

---
 src/M2MLink/M2MLink.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index d07269e..c5fc39b 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -713,7 +713,7 @@ int8_t M2MLink::_churn_inbound() {
               }
             }
           }
-          else {
+          else if ((M2MLinkState::LIVE != currentState()) && !_fsm_state_planned(M2MLinkState::LIVE)) {
             _fsm_append_route(1, M2MLinkState::LIVE);
           }
           _flags.set(M2MLINK_FLAG_ESTABLISHED);
-- 
2.43.0


From dadedee8da066a87953a443f20d746f53710fda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 70/85] fix: CONNECT is repeated until it is answered

---
 src/M2MLink/M2MLink.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index c5fc39b..639de49 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -273,6 +273,13 @@ int8_t M2MLink::poll(StringBuilder* log_ret) {
       _process_input_buffer();
       _churn_inbound();
       _churn_outbound();
+      // If our CONNECT wasn't answered (the counterparty might not have been in
+      //   sync yet), repeat it.
+      if ((M2MLinkState::SYNC_TENTATIVE == currentState()) && !_fsm_state_planned(M2MLinkState::LIVE)) {
+        if (millis_since(_ms_last_send) > _opts.ms_keepalive) {
+          _send_connect_message();
+        }
+      }
       // If we need to send an obligatory sync packet, do so.
       if (_flags.value(M2MLINK_FLAG_SYNC_CASTING | M2MLINK_FLAG_SEND_KA)) {
         if (millis_since(_ms_last_send) > _opts.ms_keepalive) {
-- 
2.43.0


From ef2652d450b20209fc8ddb3e77eba0b5e6bb1ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:29 +0000
Subject: [PATCH 71/85] fix: a value of an unsupported type does not free what
 it refers to

---
 src/C3PValue/C3PValue.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 5eaeb8c..8e05799 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -177,7 +177,12 @@ C3PValue::C3PValue(const TCode TC, void* ptr, uint8_t mem_flgs)
       // Anything else just sets _target_mem directly.
     }
   }
-  else _set_mem_fault();
+  else {
+    // Nothing is known about the type. Whatever we were given remains the
+    //   property of the caller, unless we are told otherwise.
+    _set_flags(true, C3PVAL_MEM_FLAG_VALUE_BY_REF);
+    _set_mem_fault();
+  }
 }
 
 
-- 
2.43.0


From 6ae7913dc6ae7ede78165ab24a8ad129a81fa8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:29 +0000
Subject: [PATCH 72/85] fix: drop() releases what it drops

---
 src/C3PValue/C3PValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 8e05799..fb74f89 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -614,7 +614,7 @@ int8_t C3PValue::drop(C3PValue** prior, C3PValue* drop, bool destruct) {
     }
     return 0;
   }
-  return (_next) ? _next->drop(&_next, drop) : -1;
+  return (_next) ? _next->drop(&_next, drop, destruct) : -1;
 }
 
 
-- 
2.43.0


From 71f5159dc5329dcd36d02b51ed2d33a9a3454839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:29 +0000
Subject: [PATCH 73/85] fix: unlink(nullptr) does not dereference it

---
 src/C3PValue/C3PValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index fb74f89..7a8fe20 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -577,7 +577,7 @@ C3PValue* C3PValue::link(C3PValue* linked_val, bool reap_cont) {
 
 
 int8_t C3PValue::unlink(C3PValue* linked_val, bool destruct) {
-  if (linked_val == _next) {
+  if ((nullptr != linked_val) && (linked_val == _next)) {
     _next = nullptr;
     if (destruct & linked_val->reapContainer()) {
       delete linked_val;
-- 
2.43.0


From 3e8bdffda0932c1de37a2f206fa751ad8b2c6bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:29 +0000
Subject: [PATCH 74/85] fix: get_as_bool() looks at the value and not at where
 it is stored

---
 src/C3PValue/C3PValue.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 7a8fe20..6fd8ae1 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -463,8 +463,20 @@ int64_t C3PValue::get_as_int64(int8_t* success) {
 
 /* Casts the value into (!/= 0). */
 bool C3PValue::get_as_bool(int8_t* success) {
+  bool ret = (0 != _target_mem);
+  // The storage of a number might be elsewhere, or wider than the number.
+  switch (_TCODE) {
+    case TCode::FLOAT:     ret = (0.0f != get_as_float());   break;
+    case TCode::DOUBLE:    ret = (0.0  != get_as_double());  break;
+    case TCode::UINT64:    ret = (0 != get_as_uint64());     break;
+    case TCode::INT8:   case TCode::INT16:   case TCode::INT32:   case TCode::INT64:
+    case TCode::UINT8:  case TCode::UINT16:  case TCode::UINT32:  case TCode::BOOLEAN:
+      ret = (0 != get_as_int64());
+      break;
+    default:  break;
+  }
   if (success) {  *success = true;  }
-  return (0 != _target_mem);
+  return ret;
 }
 
 
-- 
2.43.0


From 463fbecec9e59c4c658ad1bab7ec631f0680501b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:53 +0000
Subject: [PATCH 75/85] fix: setting a value to a string does not keep the
 address of the parameter

---
 src/C3PValue/C3PValue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C3PValue/C3PValue.h b/src/C3PValue/C3PValue.h
index c3ab4f1..9453fed 100644
--- a/src/C3PValue/C3PValue.h
+++ b/src/C3PValue/C3PValue.h
@@ -181,8 +181,8 @@ class C3PValue {
     inline int8_t set(bool x) {          return set_from(TCode::BOOLEAN,      (void*) &x);  };
     inline int8_t set(float x) {         return set_from(TCode::FLOAT,        (void*) &x);  };
     inline int8_t set(double x) {        return set_from(TCode::DOUBLE,       (void*) &x);  };
-    inline int8_t set(const char* x) {   return set_from(TCode::STR,          (void*) &x);  };
-    inline int8_t set(char* x) {         return set_from(TCode::STR,          (void*) &x);  };
+    inline int8_t set(const char* x) {   return set_from(TCode::STR,          (void*) x);   };
+    inline int8_t set(char* x) {         return set_from(TCode::STR,          (void*) x);   };
     inline int8_t set(Vector3u32* x) {   return set_from(TCode::VECT_3_UINT32, (void*) x);  };
     inline int8_t set(Vector3u16* x) {   return set_from(TCode::VECT_3_UINT16, (void*) x);  };
     inline int8_t set(Vector3u8*  x) {   return set_from(TCode::VECT_3_UINT8,  (void*) x);  };
-- 
2.43.0


From e8a49d471edea66ff5626d84bc0ce667871bf396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:39 +0000
Subject: [PATCH 76/85] fix: the overdraw limit of an ElementPool is observed

---
 src/ElementPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ElementPool.h b/src/ElementPool.h
index f268029..9ece158 100644
--- a/src/ElementPool.h
+++ b/src/ElementPool.h
@@ -194,7 +194,7 @@ template <class T> bool ElementPool<T>::inPool(T* e) {
 */
 template <class T> T* ElementPool<T>::take() {
   T* ret = _list.get();
-  if (nullptr == ret) {
+  if ((nullptr == ret) && (_overdraws_outstanding() < _overdraw_limit)) {
     ret = new T();
     _overdraws++;
   }
-- 
2.43.0


From 13dac37390a9817be61f37640d0d01ec2d2a135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:39 +0000
Subject: [PATCH 77/85] fix: ElementPool allocates on first use

---
 src/ElementPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ElementPool.h b/src/ElementPool.h
index 9ece158..59d5242 100644
--- a/src/ElementPool.h
+++ b/src/ElementPool.h
@@ -193,7 +193,7 @@ template <class T> bool ElementPool<T>::inPool(T* e) {
 * @return a reference to the preallocated element.
 */
 template <class T> T* ElementPool<T>::take() {
-  T* ret = _list.get();
+  T* ret = (allocated() ? _list.get() : nullptr);
   if ((nullptr == ret) && (_overdraws_outstanding() < _overdraw_limit)) {
     ret = new T();
     _overdraws++;
-- 
2.43.0


From e260967d37c1d73b11218b42f0ff9b3f78fd2086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:00 +0000
Subject: [PATCH 78/85] fix: copying the most recent samples of a TimeSeries
 begins at the right one

---
 src/TimeSeries/TimeSeries.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index 350956a..4f216b0 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -495,7 +495,7 @@ template <class T> int8_t TimeSeries<T>::copyValueRange(T* buf, const uint32_t C
     if (COUNT > 0) {
       ret--;
       if (_samples_total >= (COUNT + OFFSET)) {  // Do so many samples exist?
-        const uint32_t PRE_MOD_IDX = (ABS_IDX ? OFFSET : ((windowSize() + OFFSET + _sample_idx) - (COUNT+1)));
+        const uint32_t PRE_MOD_IDX = (ABS_IDX ? OFFSET : ((windowSize() + OFFSET + _sample_idx) - COUNT));
         markClean();  // Do this here (specifically) to minimize concurrency grief.
         // TODO: Inefficient for the sake of expediency. Should be a split copy
         //   and a single modulus operation.
-- 
2.43.0


From 387e2a14f86752d62057ce7a4c6ef107361fb736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:51 +0000
Subject: [PATCH 79/85] fix: purging the jobs of a device from a bus queue
 considers every job

---
 src/BusQueue/BusQueue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BusQueue/BusQueue.h b/src/BusQueue/BusQueue.h
index ec1e43d..dacad60 100644
--- a/src/BusQueue/BusQueue.h
+++ b/src/BusQueue/BusQueue.h
@@ -438,6 +438,7 @@ template <class T> class BusAdapter : public BusOpCallback, public C3PPollable {
             current->callback->io_op_callback(current);
           }
           _reclaim_queue_item(current);   // Delete the queued work AND its buffer.
+          i--;                            // Something else is at this position now.
         }
       }
       return ret;
-- 
2.43.0


From 310cc3dda3595eb83a03e02e90f73934927bb2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:51 +0000
Subject: [PATCH 80/85] fix: I2CAdapter reports success for jobs that began
 without queueing

---
 src/BusQueue/I2CAdapter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/BusQueue/I2CAdapter.cpp b/src/BusQueue/I2CAdapter.cpp
index c4fecb5..bfc5295 100644
--- a/src/BusQueue/I2CAdapter.cpp
+++ b/src/BusQueue/I2CAdapter.cpp
@@ -172,7 +172,10 @@ FAST_FUNC int8_t I2CAdapter::queue_io_job(BusOp* op) {
     //   immediately under this condition.
     // Put this work item in the active slot and start the bus operations.
     current_job = nu;
-    if (XferFault::NONE != nu->begin()) {
+    if (XferFault::NONE == nu->begin()) {
+      ret = 0;
+    }
+    else {
       c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "I2C%u:\tFailed to begin transfer while short-circuiting the queue.\n", ADAPTER_NUM);
     }
   }
-- 
2.43.0


From 00c24850264f02ec4daa2fa1874a26966433f3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:51 +0000
Subject: [PATCH 81/85] fix: I2CDevice survives the lack of a free bus
 operation

---
 src/BusQueue/I2CDevice.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/BusQueue/I2CDevice.cpp b/src/BusQueue/I2CDevice.cpp
index 1ea6144..842a105 100644
--- a/src/BusQueue/I2CDevice.cpp
+++ b/src/BusQueue/I2CDevice.cpp
@@ -98,6 +98,9 @@ bool I2CDevice::writeX(int sub_addr, uint16_t len, uint8_t *buf) {
     return false;
   }
   I2CBusOp* nu = _bus->new_op(BusOpcode::TX, this);
+  if (nullptr == nu) {
+    return false;
+  }
   nu->dev_addr = _dev_addr;
   nu->sub_addr = (int16_t) sub_addr;
   nu->setBuffer(buf, len);
@@ -110,6 +113,9 @@ bool I2CDevice::readX(int sub_addr, uint8_t len, uint8_t *buf) {
     return false;
   }
   I2CBusOp* nu = _bus->new_op(BusOpcode::RX, this);
+  if (nullptr == nu) {
+    return false;
+  }
   nu->dev_addr = _dev_addr;
   nu->sub_addr = (int16_t) sub_addr;
   nu->setBuffer(buf, len);
-- 
2.43.0


From 1c55d7f414c1b4a0c4f31d248cb51f19680c5d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:23 +0000
Subject: [PATCH 82/85] fix: Image pixels are written where they are read, and
 only inside the buffer

---
 src/Image/Image.cpp | 28 +++++++++++++++-------------
 src/Image/Image.h   | 17 ++++++++++++++---
 2 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index d59501c..a909cd7 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -898,11 +898,10 @@ void Image::_remap_for_orientation(PixUInt* xn, PixUInt* yn) {
 */
 uint32_t Image::getPixel(PixUInt x, PixUInt y) {
   uint32_t ret = 0;
-  uint32_t sz = bytesUsed();
   _remap_for_orientation(&x, &y);
   uint32_t offset = _pixel_offset(x, y);
 
-  if (offset < sz) {
+  if (_pixel_in_buffer(x, y)) {
     switch (_buf_fmt) {
       case ImgBufferFormat::R8_G8_B8_ALPHA:    // 32-bit color
         // TODO: Presumption of little-endian framebuffer.
@@ -1042,6 +1041,9 @@ uint32_t Image::getPixelAsFormat(PixUInt x, PixUInt y, ImgBufferFormat target_fm
 */
 bool Image::setPixel(PixUInt x, PixUInt y, uint32_t c) {
   _remap_for_orientation(&x, &y);
+  if (!_pixel_in_buffer(x, y)) {
+    return false;   // Addressed pixel is out-of-bounds
+  }
   switch (_buf_fmt) {
     case ImgBufferFormat::R3_G3_B2:          // 8-bit color
     case ImgBufferFormat::GREY_8:            // 8-bit greyscale
@@ -1069,9 +1071,9 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint32_t c) {
       break;
     case ImgBufferFormat::UNALLOCATED:       // Buffer unallocated
     default:
-      break;;
+      return false;
   }
-  return false;
+  return true;
 }
 
 
@@ -1080,9 +1082,8 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint32_t c) {
 */
 bool Image::setPixel(PixUInt x, PixUInt y, uint8_t r, uint8_t g, uint8_t b) {
   _remap_for_orientation(&x, &y);
-  uint32_t sz = bytesUsed();
   uint32_t offset = _pixel_offset(x, y);
-  if (offset < sz) {
+  if (_pixel_in_buffer(x, y)) {
     switch (_buf_fmt) {
       case ImgBufferFormat::GREY_24:           // 24-bit greyscale   TODO: Wrong. Has to be.
       case ImgBufferFormat::R8_G8_B8:          // 24-bit color
@@ -1092,12 +1093,12 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint8_t r, uint8_t g, uint8_t b) {
         break;
       case ImgBufferFormat::GREY_16:           // 16-bit greyscale   TODO: Wrong. Has to be.
       case ImgBufferFormat::R5_G6_B5:          // 16-bit color
-        *(_buffer + offset + 0) = ((uint16_t) ((r << 3) & 0xF8) << 8) | ((g >> 3) & 0x07);
-        *(_buffer + offset + 1) = ((uint16_t) ((g << 5) & 0xE0) << 8) | ((b >> 3) & 0x1F);
+        *(_buffer + offset + 0) = (r & 0xF8) | ((g >> 5) & 0x07);
+        *(_buffer + offset + 1) = ((g << 3) & 0xE0) | ((b >> 3) & 0x1F);
         break;
       case ImgBufferFormat::GREY_8:            // 8-bit greyscale    TODO: Wrong. Has to be.
       case ImgBufferFormat::R3_G3_B2:          // 8-bit color
-        *(_buffer + offset) = ((uint8_t) (r << 6) & 0xE0) | ((uint8_t) (g << 2) & 0x1C) | (b & 0x07);
+        *(_buffer + offset) = (r & 0xE0) | ((g >> 3) & 0x1C) | ((b >> 6) & 0x03);
         break;
       case ImgBufferFormat::MONOCHROME:        // Monochrome
         {
@@ -1933,14 +1934,15 @@ void Image::fill(uint32_t color) {
       break;
     case 24:
       for (uint32_t i=0; i < (_x * _y); i++) {
-        *(_buffer + (i << 2) + 0) = (uint8_t) (color >> 16) & 0xFF;
-        *(_buffer + (i << 2) + 1) = (uint8_t) (color >> 8) & 0xFF;
-        *(_buffer + (i << 2) + 2) = (uint8_t) (color & 0xFF);
+        *(_buffer + (i * 3) + 0) = (uint8_t) (color >> 16) & 0xFF;
+        *(_buffer + (i * 3) + 1) = (uint8_t) (color >> 8) & 0xFF;
+        *(_buffer + (i * 3) + 2) = (uint8_t) (color & 0xFF);
       }
       break;
     case 16:
       for (uint32_t i=0; i < (_x * _y); i++) {
-        *((uint16_t*) (_buffer + (i << 1))) = (uint16_t) color;
+        *(_buffer + (i << 1) + 0) = (uint8_t) (color >> 8) & 0xFF;
+        *(_buffer + (i << 1) + 1) = (uint8_t) (color & 0xFF);
       }
       break;
     case 8:
diff --git a/src/Image/Image.h b/src/Image/Image.h
index 26f10c3..b6e625c 100644
--- a/src/Image/Image.h
+++ b/src/Image/Image.h
@@ -311,16 +311,27 @@ class Image {
       *((uint32_t*) (_buffer + (_pixel_number(x, y) << 2))) = c;
     };
     inline void _set_pixel_24(PixUInt x, PixUInt y, uint32_t c) {
-      // TODO: Wrong.
-      *((uint32_t*) (_buffer + (_pixel_number(x, y) << 2))) = c;
+      uint8_t* const PIXEL = (_buffer + (_pixel_number(x, y) * 3));
+      *(PIXEL + 0) = (uint8_t) (c >> 16);
+      *(PIXEL + 1) = (uint8_t) (c >> 8);
+      *(PIXEL + 2) = (uint8_t) c;
     };
     inline void _set_pixel_16(PixUInt x, PixUInt y, uint32_t c) {
-      *((uint16_t*) (_buffer + (_pixel_number(x, y) << 1))) = (uint16_t) c;
+      uint8_t* const PIXEL = (_buffer + (_pixel_number(x, y) << 1));
+      *(PIXEL + 0) = (uint8_t) (c >> 8);
+      *(PIXEL + 1) = (uint8_t) c;
     };
     inline void _set_pixel_8(PixUInt x, PixUInt y, uint32_t c) {
       *(_buffer + _pixel_number(x, y)) = (uint8_t) c;
     };
 
+    /* True if the (already remapped) address has a place in the buffer. */
+    inline bool _pixel_in_buffer(PixUInt x, PixUInt y) {
+      if (!allocated() || (x >= _x) || (y >= _y)) return false;
+      // Monochrome pixels are grouped along the Y-axis in whole bytes.
+      return ((ImgBufferFormat::MONOCHROME != _buf_fmt) || (y < (_y & ~7)));
+    };
+
     /* Linearizes the X/y value in preparation for array indexing. */
     inline uint32_t _pixel_number(uint32_t x, uint32_t y) {      return ((y * _x) + x);    };
 
-- 
2.43.0


From 6d04cdd2ba3f92a1eebbd16017d761adc6058550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:23 +0000
Subject: [PATCH 83/85] fix: Image keeps its size and format when a buffer it
 does not own can't be replaced

---
 src/Image/Image.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index a909cd7..dbbca83 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -536,6 +536,7 @@ bool Image::setBufferByCopy(uint8_t* buf, ImgBufferFormat fmt) {
         memcpy(_buffer, buf, bytesUsed());
         return true;
       }
+      _buf_fmt = old_fmt;   // Whatever buffer remains is still in the old format.
     }
   }
   else {
@@ -550,9 +551,17 @@ bool Image::setBufferByCopy(uint8_t* buf, ImgBufferFormat fmt) {
 
 
 bool Image::setSize(PixUInt x, PixUInt y) {
+  const PixUInt OLD_X = _x;
+  const PixUInt OLD_Y = _y;
   _x = x;
   _y = y;
-  return (0 == _buffer_allocator());
+  const int8_t ALLOC_RET = _buffer_allocator();
+  if (-2 == ALLOC_RET) {
+    // The buffer isn't ours to replace, and still has the old size.
+    _x = OLD_X;
+    _y = OLD_Y;
+  }
+  return (0 == ALLOC_RET);
 }
 
 
-- 
2.43.0


From 8d207c53bfbfe4431707218cf2a5ca9708639f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:23 +0000
Subject: [PATCH 84/85] fix: Image deserializes what it serializes

---
 src/Image/Image.cpp | 43 +++++++++++++++++--------------------------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index dbbca83..e5d8da8 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -712,32 +712,23 @@ int8_t Image::serializeWithoutBuffer(uint8_t* buf, uint32_t* len) {
 */
 int8_t Image::deserialize(uint8_t* buf, uint32_t len) {
   if (ImgBufferFormat::UNALLOCATED == _buf_fmt) {
-    // TODO: This is awful, and will absolutely wreck someone later.
-    //   Shunt this responsibility to C3PType.
-    const uint8_t PIX_AND_FMT_LEN = (sizeof(PixUInt) + 1);
-    if (len > PIX_AND_FMT_LEN) {
-      #if(9 > CONFIG_C3P_IMG_COORD_BITS)
-        PixUInt temp_x = (PixUInt) *(buf + 0);
-        PixUInt temp_y = (PixUInt) *(buf + 1);
-      #elif(17 > CONFIG_C3P_IMG_COORD_BITS)
-        PixUInt temp_x = ((PixUInt) *(buf + 0) << 8) | ((PixUInt) *(buf + 1));
-        PixUInt temp_y = ((PixUInt) *(buf + 2) << 8) | ((PixUInt) *(buf + 3));
-      #elif(33 > CONFIG_C3P_IMG_COORD_BITS)
-        PixUInt temp_x = ((PixUInt) *(buf + 0) << 24) | ((PixUInt) *(buf + 1) << 16) | ((PixUInt) *(buf + 2) << 8) | ((PixUInt) *(buf + 3));
-        PixUInt temp_y = ((PixUInt) *(buf + 4) << 24) | ((PixUInt) *(buf + 5) << 16) | ((PixUInt) *(buf + 6) << 8) | ((PixUInt) *(buf + 7));
-      #else
-        #error Integers for holding pixel addresses cannot be larger than 32-bit.
-      #endif
-      ImgBufferFormat temp_fmt = (ImgBufferFormat) *(buf + (PIX_AND_FMT_LEN-1));
-      uint32_t temp_f = *(buf + PIX_AND_FMT_LEN);
-      uint32_t proposed_size = (_bits_per_pixel(temp_fmt) * temp_x * temp_y) >> 3;
-      if (proposed_size == (len - (PIX_AND_FMT_LEN+1))) {
-        // The derived and declared sizes match.
-        _x = temp_x;
-        _y = temp_y;
-        _buf_fmt  = temp_fmt;
-        _imgflags = temp_f;
-        return setBufferByCopy(buf + (PIX_AND_FMT_LEN+1)) ? 0 : -2;
+    // The header is the same one that serialize() writes, for any PixUInt.
+    const uint32_t HEADER_LEN = 10;
+    if (len > HEADER_LEN) {
+      const uint32_t temp_x = ((uint32_t) *(buf + 0) << 24) | ((uint32_t) *(buf + 1) << 16) | ((uint32_t) *(buf + 2) << 8) | ((uint32_t) *(buf + 3));
+      const uint32_t temp_y = ((uint32_t) *(buf + 4) << 24) | ((uint32_t) *(buf + 5) << 16) | ((uint32_t) *(buf + 6) << 8) | ((uint32_t) *(buf + 7));
+      if (((PixUInt) temp_x == temp_x) && ((PixUInt) temp_y == temp_y)) {
+        const ImgBufferFormat temp_fmt = (ImgBufferFormat) *(buf + 8);
+        const uint8_t  temp_f        = *(buf + 9);
+        const uint64_t PROPOSED_BITS = ((uint64_t) temp_x * temp_y * _bits_per_pixel(temp_fmt));
+        if (((PROPOSED_BITS + 7) >> 3) == (len - HEADER_LEN)) {
+          // The derived and declared sizes match.
+          _x = (PixUInt) temp_x;
+          _y = (PixUInt) temp_y;
+          _buf_fmt  = temp_fmt;
+          _imgflags = temp_f;
+          return setBufferByCopy(buf + HEADER_LEN) ? 0 : -2;
+        }
       }
     }
   }
-- 
2.43.0


From 1e0f18390321fa6c878116e20d26b9dcf3bc2cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:35 +0000
Subject: [PATCH 85/85] fix: ParsingConsole waits for the end of a line that
 arrives in pieces

---
 src/Console/C3PConsole.cpp | 24 ++++++++++++++++--------
 src/Console/C3PConsole.h   |  2 +-
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/Console/C3PConsole.cpp b/src/Console/C3PConsole.cpp
index b231db8..ce5395e 100644
--- a/src/Console/C3PConsole.cpp
+++ b/src/Console/C3PConsole.cpp
@@ -207,8 +207,9 @@ int8_t ParsingConsole::_process_buffer() {
     _buffer.clear();
     ret = -2;
   }
-  else if (_line_ending_rxd()) {
-    while (0 < _buffer.count()) {
+  else {
+    int complete_lines = _line_ending_rxd();
+    while (0 < complete_lines--) {
       StringBuilder tmp_str_bldr(_buffer.position_trimmed(0));
       _buffer.drop_position(0);
       if (!tmp_str_bldr.isEmpty()) {
@@ -423,14 +424,15 @@ void ParsingConsole::printHistory(StringBuilder* output) {
 
 /**
 * Checks for the configured terminator in the input stream, and tokenizes the
-*   line if found.
+*   line if found. Anything after the last terminator is an unfinished line, and
+*   is left as the final token.
 *
-* @return true if there is a line-ending in the buffer.
+* @return the number of complete lines at the front of the buffer.
 */
-bool ParsingConsole::_line_ending_rxd() {
+int ParsingConsole::_line_ending_rxd() {
   const char* const L_TERM = lineTerminatorLiteralStr(_rx_terminator);
   const int L_TERM_LEN = strlen(L_TERM);
-  bool ret = false;
+  int  ret = 0;
   bool buf_has_lterm = false;
   switch (L_TERM_LEN) {
     case 2:
@@ -445,8 +447,14 @@ bool ParsingConsole::_line_ending_rxd() {
   }
 
   if (buf_has_lterm) {
-    if (0 < _buffer.split(L_TERM)) {
-      ret = true;
+    const int BUF_LEN = _buffer.length();
+    bool buf_ends_line = true;
+    for (int i = 1; i <= L_TERM_LEN; i++) {
+      buf_ends_line &= ((uint8_t) L_TERM[L_TERM_LEN - i] == _buffer.byteAt(BUF_LEN - i));
+    }
+    const int TOKEN_COUNT = _buffer.split(L_TERM);
+    if (0 < TOKEN_COUNT) {
+      ret = (buf_ends_line ? TOKEN_COUNT : (TOKEN_COUNT - 1));
     }
     else {
       _buffer.clear();
diff --git a/src/Console/C3PConsole.h b/src/Console/C3PConsole.h
index fb86877..7f66d03 100644
--- a/src/Console/C3PConsole.h
+++ b/src/Console/C3PConsole.h
@@ -171,7 +171,7 @@ class ParsingConsole : public C3PConsole, public BufferCoDec {
     void   _append_to_history(StringBuilder*);  // Appends a command to the history.
     void   _cull_history();                     // Trims the history list back to bounds.
 
-    bool _line_ending_rxd();
+    int    _line_ending_rxd();
     int8_t _process_buffer();
 
     /* Flag manipulation inlines */
-- 
2.43.0

