From 0900d4f20b74a9d314676fedf632e721ba5fe436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 001/110] fix: chunked messages no longer abort the process

The number of read bytes is not tracked by the parser, so the assertion
on it failed for every message with a chunked body.
---
 src/viriatum/http/http_parser.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index d24946e..dd2ea5f 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -1621,7 +1621,6 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                 break;
 
             case STATE_CHUNK_SIZE_START:
-                assert(read_count == 1);
                 assert(http_parser->flags & FLAG_CHUNKED);
 
                 unhex_value = unhex[byte];
-- 
2.43.0


From 2e5d6161eab76743dc1613dcd672454912a2a342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 002/110] fix: bytes above 0x7f are not hexadecimal digits of a
 chunk size

---
 src/viriatum/http/http_parser.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/viriatum/http/http_parser.h b/src/viriatum/http/http_parser.h
index 9314338..16f131e 100644
--- a/src/viriatum/http/http_parser.h
+++ b/src/viriatum/http/http_parser.h
@@ -184,6 +184,14 @@ static const char unhex[256] = {
     -1, 10, 11, 12, 13, 14, 15, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, 10, 11, 12, 13, 14, 15, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1
 };
 
-- 
2.43.0


From 6ddfc4dd04fe344c0990f9c79addf94384ff3b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 003/110] fix: content and chunk lengths that do not fit are
 rejected

The values overflowed (wrapping to negative or unrelated lengths) and the
rest of the body was then interpreted as another request.
---
 src/viriatum/http/http_parser.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index dd2ea5f..bd9a403 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -29,6 +29,8 @@
 
 #include "http_parser.h"
 
+#include <limits.h>
+
 int http_should_keep_alive(struct http_parser_t *http_parser) {
     /* in case the request is of type HTTP 1.1 */
     if(http_parser->http_major > 0 && http_parser->http_minor > 0) {
@@ -1387,6 +1389,11 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                             goto error;
                         }
 
+                        if(http_parser->content_length > (INT_MAX - (byte - '0')) / 10) {
+                            /*SET_ERRNO(HPE_INVALID_CONTENT_LENGTH);*/
+                            goto error;
+                        }
+
                         http_parser->content_length *= 10;
                         http_parser->content_length += byte - '0';
 
@@ -1660,6 +1667,11 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                     goto error;
                 }
 
+                if(http_parser->content_length > (INT_MAX - unhex_value) / 16) {
+                    /*SET_ERRNO(HPE_INVALID_CHUNK_SIZE);*/
+                    goto error;
+                }
+
                 http_parser->content_length *= 16;
                 http_parser->content_length += unhex_value;
 
-- 
2.43.0


From 39a8b2341c844550c5c88107d4b29aa389bde264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:52 +0000
Subject: [PATCH 004/110] fix: parser state is saved after a message with an
 upgrade header

The state stored before the message remained in place when it arrived in
more than one piece and the upgrade flag leaked into the next messages.
---
 src/viriatum/http/http_parser.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index bd9a403..68a8f13 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -1547,8 +1547,10 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                     /* Exit, the rest of the connect is in a different protocol. */
                     if(http_parser->upgrade) {
                         HTTP_CALLBACK(message_complete);
-
-                        return (int) (pointer - data) + 1;
+                        http_parser->upgrade = 0;
+                        state = NEW_MESSAGE();
+                        parse_count++;
+                        break;
                     }
 
                     if(http_parser->flags & FLAG_SKIPBODY) {
-- 
2.43.0


From 705f94480ec70b64435b2eef5a8c82e640666901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:02 +0000
Subject: [PATCH 005/110] fix: parser marks follow the connection buffer when
 it is moved

An url or a header that arrived in more than one piece was read from the
released buffer.
---
 src/viriatum/stream/stream_http.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/viriatum/stream/stream_http.c b/src/viriatum/stream/stream_http.c
index 9a71ab9..f840be4 100644
--- a/src/viriatum/stream/stream_http.c
+++ b/src/viriatum/stream/stream_http.c
@@ -186,6 +186,10 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
     buffer position to be used in writing (initial position) */
     unsigned char *_buffer;
 
+    /* allocates the reference to the previous buffer, so that the
+    marks of the parser may be moved together with the contents */
+    unsigned char *_previous;
+
     /* allocates the reference to the pointer to the position
     in the connection buffer to continue the parsing */
     unsigned char *_read;
@@ -224,10 +228,26 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
         size_offset = http_connection->buffer_offset + buffer_size;
         size_length = http_connection->buffer_size + content_length;
         http_connection->buffer_size = size_length > size_offset ? size_length : size_offset;
+        _previous = http_connection->buffer;
         http_connection->buffer = REALLOC(
             (void *) http_connection->buffer,
             http_connection->buffer_size
         );
+
+        /* moves the marks of the parser (start of a partially received
+        element) from the previous buffer into the new one */
+        if(http_connection->http_parser->header_field_mark != NULL) {
+            http_connection->http_parser->header_field_mark =\
+                http_connection->buffer + (http_connection->http_parser->header_field_mark - _previous);
+        }
+        if(http_connection->http_parser->header_value_mark != NULL) {
+            http_connection->http_parser->header_value_mark =\
+                http_connection->buffer + (http_connection->http_parser->header_value_mark - _previous);
+        }
+        if(http_connection->http_parser->url_mark != NULL) {
+            http_connection->http_parser->url_mark =\
+                http_connection->buffer + (http_connection->http_parser->url_mark - _previous);
+        }
     }
 
     /* retrieves the pointer reference to the current position in the
-- 
2.43.0


From dffdd12953ed296ce429cb1f3eb1b7fca1c39e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:02 +0000
Subject: [PATCH 006/110] fix: reading stops once the data handler has closed
 the connection

---
 src/viriatum/stream/stream_io.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index 4ff8eeb..dd05472 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -305,6 +305,10 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
                 V_DEBUG("Finished calling on data handler\n");
             }
 
+            /* in case the connection has been closed by the data handler
+            the io connection is no longer available (must return) */
+            if(connection->status == STATUS_CLOSED) { RAISE_ERROR(1); }
+
             /* resets the buffer size to the original (initial)
             position so that it can be reused, note that both
             the buffer pointer and the buffer size are reseted */
@@ -411,8 +415,9 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
             }
 
             /* closes the connection as the error was fatal, so this is the
-            best escape approach to solve the issue */
-            connection->close_connection(connection);
+            best escape approach to solve the issue, note that it may have
+            already been closed by the data handler */
+            CALL_V(connection->close_connection, connection);
 
             /* breaks the switch */
             break;
-- 
2.43.0


From a9cacc9493b59b406cf258a1a6128d0a913c19ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:02 +0000
Subject: [PATCH 007/110] fix: outstanding operations of a closed connection
 are dropped

A connection closed in the event loop iteration that queued its response
was released and then used by the next iteration.
---
 src/viriatum/polling/polling_epoll.c | 31 ++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index 6896c16..66245f5 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -152,6 +152,24 @@ ERROR_CODE register_connection_polling_epoll(struct polling_t *polling, struct c
     RAISE_NO_ERROR;
 }
 
+static void _purge_outstanding_epoll(
+    struct connection_t **outstanding,
+    size_t *outstanding_size,
+    struct connection_t *connection
+) {
+    size_t index;
+    size_t size = 0;
+
+    /* keeps only the entries of the other connections */
+    for(index = 0; index < *outstanding_size; index++) {
+        if(outstanding[index] == connection) { continue; }
+        outstanding[size] = outstanding[index];
+        size++;
+    }
+
+    *outstanding_size = size;
+}
+
 ERROR_CODE unregister_connection_polling_epoll(
     struct polling_t *polling,
     struct connection_t *connection,
@@ -193,6 +211,19 @@ ERROR_CODE unregister_connection_polling_epoll(
     after the io driven logic part is processed (at the end
     of the logic loop) */
     if(remove_c == TRUE) {
+        /* removes the outstanding operations of the connection, it is
+        going to be deleted before they are processed */
+        _purge_outstanding_epoll(
+            polling_epoll->read_outstanding,
+            &polling_epoll->read_outstanding_size,
+            connection
+        );
+        _purge_outstanding_epoll(
+            polling_epoll->write_outstanding,
+            &polling_epoll->write_outstanding_size,
+            connection
+        );
+
         remove_connection(
             polling_epoll->remove_connections,
             &polling_epoll->remove_connections_size,
-- 
2.43.0


From 9d76b58194cb1643248fc2c456f59f86f8c96b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:19 +0000
Subject: [PATCH 008/110] fix: hash map keys with the same hash value do not
 replace each other

---
 src/viriatum_commons/structures/hash_map.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/structures/hash_map.c b/src/viriatum_commons/structures/hash_map.c
index e966013..ee04508 100644
--- a/src/viriatum_commons/structures/hash_map.c
+++ b/src/viriatum_commons/structures/hash_map.c
@@ -168,7 +168,7 @@ void get_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char *key_st
         requested (element found) note that an extra
         verification is done to make sure that in case
         a string key is specified it also matches */
-        if(element->key == key && (key_string == NULL || strcmp((char *) element->key_string, (char *) key_string) == 0)) {
+        if(element->key == key && (key_string == NULL || (element->key_string != NULL && strcmp((char *) element->key_string, (char *) key_string) == 0))) {
             /* breaks the loop */
             break;
         }
@@ -362,6 +362,13 @@ void get_next_element_iterator_hash_map(struct iterator_t *iterator, void **next
     *next_pointer = next;
 }
 
+static char _equals_key_string_hash_map(unsigned char *first, unsigned char *second) {
+    /* in case one of the key strings is not set they're only
+    considered to be the same if none of them is set */
+    if(first == NULL || second == NULL) { return first == second; }
+    return strcmp((char *) first, (char *) second) == 0;
+}
+
 void _set_value_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char *key_string, void *value, char copy) {
     /* allocates space for the hash map element to be used */
     struct hash_map_element_t *element;
@@ -392,7 +399,7 @@ void _set_value_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char
 
         /* in case the element is empty or the
         key is the same (overwrite) */
-        if(element->used == 0 || element->key == key) {
+        if(element->used == 0 || (element->key == key && _equals_key_string_hash_map(element->key_string, key_string))) {
             /* breaks the loop */
             break;
         }
-- 
2.43.0


From 6f9e13864a5e4bb5b5b72a326b64843571dde51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:36 +0000
Subject: [PATCH 009/110] fix: replacing the value of a hash map key keeps the
 size of the map

---
 src/viriatum_commons/structures/hash_map.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/viriatum_commons/structures/hash_map.c b/src/viriatum_commons/structures/hash_map.c
index ee04508..6bee40b 100644
--- a/src/viriatum_commons/structures/hash_map.c
+++ b/src/viriatum_commons/structures/hash_map.c
@@ -427,6 +427,10 @@ void _set_value_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char
         element->key_string = NULL;
     }
 
+    /* increments the hash map size in case a new element
+    is going to be used (not an overwrite operation) */
+    if(element->used == 0) { hash_map->size++; }
+
     /* sets the element fields */
     element->value = value;
     element->key = key;
@@ -443,9 +447,6 @@ void _set_value_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char
         element->key_string = (unsigned char *) MALLOC(key_string_size + 1);
         memcpy(element->key_string, key_string, key_string_size + 1);
     }
-
-    /* increments the hash map size */
-    hash_map->size++;
 }
 
 void _resize_hash_map(struct hash_map_t *hash_map) {
-- 
2.43.0


From f9ff3a6f3b9eb30ab75e014f520f73b85db32c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:36 +0000
Subject: [PATCH 010/110] fix: setting an existing sort map key replaces its
 value

The key was listed twice and the first entry of the list referred to the
released key string.
---
 src/viriatum_commons/structures/sort_map.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/viriatum_commons/structures/sort_map.c b/src/viriatum_commons/structures/sort_map.c
index f447289..b1f8023 100644
--- a/src/viriatum_commons/structures/sort_map.c
+++ b/src/viriatum_commons/structures/sort_map.c
@@ -59,6 +59,11 @@ void delete_sort_map(struct sort_map_t *sort_map) {
 void set_value_sort_map(struct sort_map_t *sort_map, size_t key, unsigned char *key_string, void *value) {
     struct hash_map_element_t *element;
 
+    /* in case the key already exists only its value is replaced, its
+    position (and key string) in the key lists remains the same */
+    get_hash_map(sort_map->hash_map, key, key_string, &element);
+    if(element->used == 1) { element->value = value; return; }
+
     set_value_hash_map(sort_map->hash_map, key, key_string, value);
     get_hash_map(sort_map->hash_map, key, key_string, &element);
     append_value_linked_list(sort_map->key_list, (void *) key);
-- 
2.43.0


From 2ae391318a8e574c637b793391dffcfb46253e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:36 +0000
Subject: [PATCH 011/110] fix: clearing a linked list drops the references to
 the deleted nodes

---
 src/viriatum_commons/structures/linked_list.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/viriatum_commons/structures/linked_list.c b/src/viriatum_commons/structures/linked_list.c
index 2c3e233..8007973 100644
--- a/src/viriatum_commons/structures/linked_list.c
+++ b/src/viriatum_commons/structures/linked_list.c
@@ -128,8 +128,11 @@ void clear_linked_list(struct linked_list_t *linked_list) {
     }
 
     /* resets the linked list size to the original
-    empty value of zero */
+    empty value of zero and removes the references to the
+    nodes that have just been deleted */
     linked_list->size = 0;
+    linked_list->first = NULL;
+    linked_list->last = NULL;
 }
 
 void append_linked_list(struct linked_list_t *linked_list, struct linked_list_node_t *linked_list_node) {
-- 
2.43.0


From 23f0581ec52a835bf3f4679338fd2c15e06b08b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:36 +0000
Subject: [PATCH 012/110] fix: popping an empty priority queue keeps its size
 at zero

---
 src/viriatum_commons/structures/priority_queue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum_commons/structures/priority_queue.c b/src/viriatum_commons/structures/priority_queue.c
index dadb1cd..222d1cf 100644
--- a/src/viriatum_commons/structures/priority_queue.c
+++ b/src/viriatum_commons/structures/priority_queue.c
@@ -106,5 +106,5 @@ void pop_priority_queue(struct priority_queue_t *priority_queue, void **value_po
     /* pops a value from the underlying list directly to the value pointer
     and then decrements the size of the current priority queue */
     pop_value_linked_list(priority_queue->list, value_pointer, TRUE);
-    priority_queue->size--;
+    priority_queue->size = priority_queue->list->size;
 }
-- 
2.43.0


From b446f40a5ca5700ee2ee64d8fc0716b74015c99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:36 +0000
Subject: [PATCH 013/110] fix: array list elements are addressed in bytes

The byte offset was scaled by the size of a pointer, writing outside of the
allocated buffer.
---
 src/viriatum_commons/structures/array_list.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/structures/array_list.c b/src/viriatum_commons/structures/array_list.c
index dce5ad0..4a289ea 100644
--- a/src/viriatum_commons/structures/array_list.c
+++ b/src/viriatum_commons/structures/array_list.c
@@ -71,7 +71,7 @@ void set_array_list(struct array_list_t *array_list, size_t index, void *element
     size_t base_index = array_list->element_size * index;
 
     /* retrieves the base address value */
-    void *base_address = &array_list->elements_buffer[base_index];
+    void *base_address = (unsigned char *) array_list->elements_buffer + base_index;
 
     /* copies the element to the array list
     elements buffer, using the element size */
@@ -83,7 +83,7 @@ void get_array_list(struct array_list_t *array_list, size_t index, void **elemen
     size_t base_index = array_list->element_size * index;
 
     /* retrieves the element from the element buffer */
-    void *element = &array_list->elements_buffer[base_index];
+    void *element = (unsigned char *) array_list->elements_buffer + base_index;
 
     /* sets the element in the element pointer */
     *element_pointer = element;
-- 
2.43.0


From 84e358a3f38f4ef6ccb8e848735332f59b3bc933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:36 +0000
Subject: [PATCH 014/110] fix: sorting an empty sequence does not read from it

---
 src/viriatum_commons/sorting/quicksort.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/sorting/quicksort.c b/src/viriatum_commons/sorting/quicksort.c
index 0266f38..31140a6 100644
--- a/src/viriatum_commons/sorting/quicksort.c
+++ b/src/viriatum_commons/sorting/quicksort.c
@@ -30,8 +30,8 @@
 #include "quicksort.h"
 
 void sort_quicksort(void **sequence, size_t beginning, size_t end, comparator cmp) {
-    /* retrieves the initial pivor, left and right elements */
-    void *pivot = sequence[beginning];
+    /* retrieves the initial left and right elements */
+    void *pivot;
     size_t left = beginning + 1;
     size_t right = end;
 
@@ -42,6 +42,9 @@ void sort_quicksort(void **sequence, size_t beginning, size_t end, comparator cm
         return;
     }
 
+    /* retrieves the pivot element of the sequence */
+    pivot = sequence[beginning];
+
     /* iterates while the right index is greater
     than the left index */
     while(left < right) {
-- 
2.43.0


From 8300d688091626a1964b10ca79b5e6e6770050d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:29 +0000
Subject: [PATCH 015/110] fix: section names are compared only up to their end

---
 src/viriatum/system/service.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 69b19c6..f355764 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -321,7 +321,7 @@ ERROR_CODE calculate_locations_service(struct service_t *service) {
         get_next_iterator(iterator, (void **) &element);
         if(element == NULL) { break; }
 
-        is_equal = memcmp(element->key_string, "location:", sizeof("location:") - 1);
+        is_equal = strncmp((char *) element->key_string, "location:", sizeof("location:") - 1);
         if(is_equal != 0) { continue; }
 
         get_value_string_sort_map(configuration, element->key_string, (void **) &location);
-- 
2.43.0


From a19e7c4f58d39f6139235ea8d6a3d637f57397f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 016/110] fix: sha1 does not change the buffer it is given

---
 src/viriatum_commons/checksum/sha1.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/checksum/sha1.c b/src/viriatum_commons/checksum/sha1.c
index 1dbfa2b..a1954db 100644
--- a/src/viriatum_commons/checksum/sha1.c
+++ b/src/viriatum_commons/checksum/sha1.c
@@ -92,9 +92,10 @@ void final_sha1(struct sha1_context_t *context, unsigned char *digest) {
 
 void _transform_sha1(unsigned int state[5], const unsigned char buffer[64]) {
     unsigned int a, b, c, d, e;
-    union sha1_block_t *block;
+    union sha1_block_t _block;
+    union sha1_block_t *block = &_block;
 
-    block = (union sha1_block_t *) buffer;
+    memcpy(_block.c, buffer, sizeof(_block.c));
 
     /* copies context state to working vars */
     a = state[0];
-- 
2.43.0


From e470fb9914e066a786a6a819233d01fdc232ffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 017/110] fix: percent decoding does not read past the end of
 its input

---
 src/viriatum_commons/encoding/percent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum_commons/encoding/percent.c b/src/viriatum_commons/encoding/percent.c
index 77cb449..0d16f10 100644
--- a/src/viriatum_commons/encoding/percent.c
+++ b/src/viriatum_commons/encoding/percent.c
@@ -99,7 +99,7 @@ ERROR_CODE decode_percent(unsigned char *buffer, size_t length, unsigned char *_
         /* in case the current pointer value refers a value
         that is the start character for a special value */
         if(*pointer == '%') {
-            if(pointer[1] && pointer[2]) {
+            if((size_t) (pointer - buffer) + 2 < length && pointer[1] && pointer[2]) {
                 /* converts the character using the hexadecimal value
                 from it and then increments the current buffer pointer
                 by a value of two (buffer advancing) */
-- 
2.43.0


From c2c69e787dc86363ebc059ba2e548575d6813ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 018/110] fix: parsed url components do not corrupt each other
 or overflow

---
 src/viriatum_commons/formats/url.c | 32 ++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/viriatum_commons/formats/url.c b/src/viriatum_commons/formats/url.c
index 95ff5c9..5819471 100644
--- a/src/viriatum_commons/formats/url.c
+++ b/src/viriatum_commons/formats/url.c
@@ -170,6 +170,14 @@ ERROR_CODE parse_url(char *url, size_t url_size, struct url_t *url_s) {
                         state = QUERY_STATE;
                         mark = pointer + 1;
                         break;
+
+                    case '#':
+                        length = pointer - mark;
+                        url_s->path.buffer = mark;
+                        url_s->path.length = length;
+                        state = FRAGMENT_STATE;
+                        mark = pointer + 1;
+                        break;
                 }
 
                 break;
@@ -247,6 +255,7 @@ ERROR_CODE parse_url(char *url, size_t url_size, struct url_t *url_s) {
     }
 
     if(url_s->port_s.buffer != NULL) {
+        if(url_s->port_s.length >= sizeof(buffer)) { goto error; }
         memcpy(buffer, url_s->port_s.buffer, url_s->port_s.length);
         buffer[url_s->port_s.length] = '\0';
 
@@ -281,6 +290,21 @@ ERROR_CODE parse_url_static(char *url, size_t url_size, struct url_static_t *url
 
     memset(url_s, 0, sizeof(struct url_static_t));
 
+    /* in case any of the components does not fit the static
+    structure the url is not valid for this operation */
+    if(_url_s.scheme.length >= sizeof(url_s->scheme) ||
+        _url_s.username.length >= sizeof(url_s->username) ||
+        _url_s.password.length >= sizeof(url_s->password) ||
+        _url_s.host.length >= sizeof(url_s->host) ||
+        _url_s.path.length >= sizeof(url_s->path) ||
+        _url_s.query.length >= sizeof(url_s->query) ||
+        _url_s.fragment.length >= sizeof(url_s->fragment)) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem parsing the url"
+        );
+    }
+
     if(_url_s.scheme.buffer != NULL) {
         memcpy(url_s->scheme, _url_s.scheme.buffer, _url_s.scheme.length);
         url_s->scheme[_url_s.scheme.length] = '\0';
@@ -298,24 +322,24 @@ ERROR_CODE parse_url_static(char *url, size_t url_size, struct url_static_t *url
 
     if(_url_s.host.buffer != NULL) {
         memcpy(url_s->host, _url_s.host.buffer, _url_s.host.length);
-        url_s->password[_url_s.host.length] = '\0';
+        url_s->host[_url_s.host.length] = '\0';
     }
 
     if(_url_s.port != 0) { url_s->port = _url_s.port; }
 
     if(_url_s.path.buffer != NULL) {
         memcpy(url_s->path, _url_s.path.buffer, _url_s.path.length);
-        url_s->password[_url_s.path.length] = '\0';
+        url_s->path[_url_s.path.length] = '\0';
     }
 
     if(_url_s.query.buffer != NULL) {
         memcpy(url_s->query, _url_s.query.buffer, _url_s.query.length);
-        url_s->password[_url_s.query.length] = '\0';
+        url_s->query[_url_s.query.length] = '\0';
     }
 
     if(_url_s.fragment.buffer != NULL) {
         memcpy(url_s->fragment, _url_s.fragment.buffer, _url_s.fragment.length);
-        url_s->password[_url_s.fragment.length] = '\0';
+        url_s->fragment[_url_s.fragment.length] = '\0';
     }
 
     RAISE_NO_ERROR;
-- 
2.43.0


From f482af17a3d1f978df028bd56acb778b2c93b80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 019/110] fix: incomplete base 64 buffers are rejected

---
 src/viriatum_commons/encoding/base_64.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/encoding/base_64.c b/src/viriatum_commons/encoding/base_64.c
index 4913570..2257890 100644
--- a/src/viriatum_commons/encoding/base_64.c
+++ b/src/viriatum_commons/encoding/base_64.c
@@ -65,6 +65,15 @@ ERROR_CODE decode_base64(
     /* retrieves the padding count from the encoded buffer */
     unsigned int padding_count = _get_padding_count(encoded_buffer, encoded_buffer_length);
 
+    /* in case the buffer is not a sequence of complete groups it's
+    not possible to decode it */
+    if(encoded_buffer_length % 4 != 0 || padding_count > 2) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem decoding base 64 buffer"
+        );
+    }
+
     /* allocates the decoded buffer according to the pre-defined
     rules and then assigns the decoded buffer length */
     _allocate_decoded_buffer(
@@ -296,9 +305,9 @@ unsigned int _get_padding_count(unsigned char *encoded_buffer, size_t encoded_bu
     int padding_count = 0;
 
     /* iterates over the encoded buffer */
-    for(index = (unsigned int) encoded_buffer_length - 1; index > 0 ; index--) {
+    for(index = (unsigned int) encoded_buffer_length; index > 1; index--) {
         /* retireve the current value */
-        current_value = encoded_buffer[index];
+        current_value = encoded_buffer[index - 1];
 
         /* in case the current value is not a padding character */
         if(current_value != PADDING_BASE_64) {
-- 
2.43.0


From 7f145fbbc5734bcb12a2f4a55f11ee928e04b043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:40 +0000
Subject: [PATCH 020/110] fix: passwd parsing handles long names and an
 unterminated last line

---
 src/viriatum_commons/formats/passwd.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/viriatum_commons/formats/passwd.c b/src/viriatum_commons/formats/passwd.c
index 6bedccf..1e976ab 100644
--- a/src/viriatum_commons/formats/passwd.c
+++ b/src/viriatum_commons/formats/passwd.c
@@ -52,9 +52,9 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
     unsigned char *pointer;
 
     /* allocates the space for the username and for the password
-    to be parsed, note that the username is allocated in stack
-    (static memory) as it's not going to be stored in map */
-    char username[128];
+    to be parsed, note that the username is a temporary buffer
+    as it's not going to be stored in map */
+    char *username;
     char *password;
 
     /* creates the "final" hash map that is going to be used to
@@ -74,17 +74,22 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
         );
     }
 
+    /* allocates the buffer for the username, no username may be
+    larger than the complete set of contents of the file */
+    username = (char *) MALLOC(size + 1);
+
     /* sets the initial values for the mark pointer and for the
     state control flag, these represent the start of the loop */
     mark = buffer;
     state = PASSWD_USER;
 
     /* iterates over the buffer contents in its range to parse
-    it and populate the passwd hash map structure */
-    for(index = 0; index < size; index++) {
+    it and populate the passwd hash map structure, note that the
+    end of the buffer also ends the (last) line */
+    for(index = 0; index <= size; index++) {
         /* retrieves the current byte in iteration and the pointer
         address to the current buffer position */
-        current = buffer[index];
+        current = index < size ? buffer[index] : '\n';
         pointer = &buffer[index];
 
         /* switches over the current state to operate over the current
@@ -138,6 +143,7 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
 
     /* releases the buffer with the file contents used during
     the parsing of the passwd file (avoids memory leaks) */
+    FREE(username);
     FREE(buffer);
 
     /* updates the passwd structure pointer with the currently
-- 
2.43.0


From 97b445c36821f82200a8c235b1c340320bc1cbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:33 +0000
Subject: [PATCH 021/110] fix: empty strings are decoded from bencoding

---
 src/viriatum_commons/encoding/bencoding.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/viriatum_commons/encoding/bencoding.c b/src/viriatum_commons/encoding/bencoding.c
index b2b5334..f7d8920 100644
--- a/src/viriatum_commons/encoding/bencoding.c
+++ b/src/viriatum_commons/encoding/bencoding.c
@@ -431,6 +431,13 @@ ERROR_CODE _run_bencoding_engine(struct bencoding_engine_t *bencoding_engine, un
 
                     BENCODING_MARK_N(string_end, -1);
                     BENCODING_CALLBACK(string_start);
+
+                    /* in case the string is empty there's no data to
+                    be consumed and so it ends immediately */
+                    if(string_size == 0) {
+                        state = BENCODING_ENGINE_NORMAL;
+                        BENCODING_CALLBACK_DATA_N(string_end, -1);
+                    }
                 } else {
                     string_size *= 10;
                     string_size += character - '0';
-- 
2.43.0


From 5816cc13c518e488b9ade138b42735ad54e8bb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:33 +0000
Subject: [PATCH 022/110] fix: bencoding values that are not inside of a
 sequence are decoded

---
 src/viriatum_commons/encoding/bencoding.c | 36 +++++++++++++++--------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/viriatum_commons/encoding/bencoding.c b/src/viriatum_commons/encoding/bencoding.c
index f7d8920..a2db7ef 100644
--- a/src/viriatum_commons/encoding/bencoding.c
+++ b/src/viriatum_commons/encoding/bencoding.c
@@ -476,15 +476,25 @@ ERROR_CODE _bencoding_integer_end_callback(struct bencoding_engine_t *bencoding_
     memcpy(integer, pointer, size);
     integer[size] = '\0';
 
+    /* in case a key is the expected element an integer is not
+    valid (only strings may be used as keys) */
+    if(bencoding_handler->next_key == 1 && bencoding_handler->sequence != NULL) {
+        FREE(integer);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Invalid bencoding key"
+        );
+    }
+
+    /* converts the integer string into an integer value, then creates
+    the type structure for the integer and sets it as an integer value */
+    _integer = atoi(integer);
+    create_type(&type, INTEGER_TYPE);
+    *type = integer_type(_integer);
+
     /* in case the sequence type is defined the integer must
     be a value and must be associated with the sequence */
     if(bencoding_handler->sequence != NULL) {
-        /* converts the integer string into an integer value, then creates
-        the type structure for the integer and sets it as an integer value */
-        _integer = atoi(integer);
-        create_type(&type, INTEGER_TYPE);
-        *type = integer_type(_integer);
-
         /* switches over the type of current sequence to
         execute the proper operations */
         switch(bencoding_handler->sequence->type) {
@@ -555,15 +565,17 @@ ERROR_CODE _bencoding_string_end_callback(struct bencoding_engine_t *bencoding_e
         if(bencoding_handler->key != NULL) { FREE(bencoding_handler->key); }
         bencoding_handler->key = (unsigned char *) string;
         bencoding_handler->next_key = 0;
+        RAISE_NO_ERROR;
     }
+
+    /* creates a new type structure for the string
+    and sets it with the correct string value */
+    create_type(&type, STRING_TYPE);
+    *type = buffer_type(string, size);
+
     /* otherwise in case the sequence type is defined the string must
     be a value and must be associated with the sequence */
-    else if(bencoding_handler->sequence != NULL) {
-        /* creates a new type structure for the string
-        and sets it with the correct string value */
-        create_type(&type, STRING_TYPE);
-        *type = buffer_type(string, size);
-
+    if(bencoding_handler->sequence != NULL) {
         /* switches over the type of current sequence to
         execute the proper operations */
         switch(bencoding_handler->sequence->type) {
-- 
2.43.0


From 06ef8a698472a3aee403848241732c7f7321d083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:01 +0000
Subject: [PATCH 023/110] fix: malformed bencoding is rejected

---
 src/viriatum_commons/encoding/bencoding.c | 49 ++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/encoding/bencoding.c b/src/viriatum_commons/encoding/bencoding.c
index a2db7ef..9dd05f8 100644
--- a/src/viriatum_commons/encoding/bencoding.c
+++ b/src/viriatum_commons/encoding/bencoding.c
@@ -111,6 +111,9 @@ ERROR_CODE encode_bencoding(struct type_t *type, unsigned char **encoded_puffer_
 }
 
 ERROR_CODE decode_bencoding(unsigned char *encoded_buffer, size_t encoded_buffer_length, struct type_t **type_pointer) {
+    /* allocates space for the return value */
+    ERROR_CODE return_value;
+
     /* allocates space for the general (temporary) variables
     to be used durring the parsing of the buffer */
     struct bencoding_engine_t *bencoding_engine;
@@ -120,7 +123,7 @@ ERROR_CODE decode_bencoding(unsigned char *encoded_buffer, size_t encoded_buffer
     structures and then runs an engine tick parsing the complete
     file buffer (it's completely available) */
     _start_bencoding_engine(&bencoding_engine);
-    _run_bencoding_engine(bencoding_engine, encoded_buffer, encoded_buffer_length);
+    return_value = _run_bencoding_engine(bencoding_engine, encoded_buffer, encoded_buffer_length);
 
     /* retieves the handler associated with the engine and then
     uses it to retrieve the top type of the parsed structure */
@@ -131,6 +134,15 @@ ERROR_CODE decode_bencoding(unsigned char *encoded_buffer, size_t encoded_buffer
     structures, the top type is still defined */
     _stop_bencoding_engine(bencoding_engine);
 
+    /* in case the contents are not valid or are not complete
+    there's no structure to be returned, raises the error */
+    if(IS_ERROR_CODE(return_value) || *type_pointer == NULL) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem decoding bencoding buffer"
+        );
+    }
+
     /* raises no error */
     RAISE_NO_ERROR;
 }
@@ -176,7 +188,7 @@ ERROR_CODE decode_bencoding_file(char *file_path, struct type_t **type_pointer)
     structures and then runs an engine tick parsing the complete
     file buffer (it's completely available) */
     _start_bencoding_engine(&bencoding_engine);
-    _run_bencoding_engine(bencoding_engine, file_buffer, file_size);
+    return_value = _run_bencoding_engine(bencoding_engine, file_buffer, file_size);
 
     /* retieves the handler associated with the engine and then
     uses it to retrieve the top type of the parsed structure */
@@ -191,6 +203,15 @@ ERROR_CODE decode_bencoding_file(char *file_path, struct type_t **type_pointer)
     the configuration file */
     FREE(file_buffer);
 
+    /* in case the contents are not valid or are not complete
+    there's no structure to be returned, raises the error */
+    if(IS_ERROR_CODE(return_value) || *type_pointer == NULL) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem decoding bencoding buffer"
+        );
+    }
+
     /* raises no error */
     RAISE_NO_ERROR;
 }
@@ -639,6 +660,15 @@ ERROR_CODE _bencoding_list_start_callback(struct bencoding_engine_t *bencoding_e
     then uses it to store the (current) value */
     struct bencoding_handler_t *bencoding_handler = (struct bencoding_handler_t *) bencoding_engine->context;
 
+    /* in case a key is the expected element a sequence is not
+    valid (only strings may be used as keys) */
+    if(bencoding_handler->next_key == 1 && bencoding_handler->sequence != NULL) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Invalid bencoding key"
+        );
+    }
+
     /* creates a new linked list for the new structure (sequence) context
     and then creates the respective type for the list */
     create_linked_list(&list);
@@ -676,6 +706,15 @@ ERROR_CODE _bencoding_dictionary_start_callback(struct bencoding_engine_t *benco
     then uses it to store the (current) value */
     struct bencoding_handler_t *bencoding_handler = (struct bencoding_handler_t *) bencoding_engine->context;
 
+    /* in case a key is the expected element a sequence is not
+    valid (only strings may be used as keys) */
+    if(bencoding_handler->next_key == 1 && bencoding_handler->sequence != NULL) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Invalid bencoding key"
+        );
+    }
+
     /* switchs over the "target" map type to be used to store conceptual
     maps in the bencoding structure */
     switch(bencoding_engine->map_type) {
@@ -736,6 +775,12 @@ ERROR_CODE _bencoding_sequence_end_callback(struct bencoding_engine_t *bencoding
     stack (these are the current values), then peeks the current sequence
     in the stack (in case it exists) it should represent the sequence to
     be set in use for the current context */
+    if(bencoding_handler->sequence == NULL) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Unexpected end of bencoding sequence"
+        );
+    }
     pop_top_value_linked_list(bencoding_handler->key_stack, (void **) &key, 1);
     pop_top_value_linked_list(bencoding_handler->sequence_stack, (void **) &sequence, 1);
     peek_top_value_linked_list(bencoding_handler->sequence_stack, (void **) &type);
-- 
2.43.0


From 3359f770288948196f8f9b1dbd92d2eb90d08a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 024/110] fix: bit stream seeks back over any number of bytes

---
 src/viriatum_commons/stream/bit_stream.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/viriatum_commons/stream/bit_stream.c b/src/viriatum_commons/stream/bit_stream.c
index c75f693..d00a40b 100644
--- a/src/viriatum_commons/stream/bit_stream.c
+++ b/src/viriatum_commons/stream/bit_stream.c
@@ -188,7 +188,7 @@ void seek_bit_stream(
             set back plus one (this is the distance to the initial byte in
             the last read operation) */
             total_read = bit_stream->byte_current_read + bit_stream->byte_counter_read;
-            diff_read = bit_stream->byte_current_read - (size_t) byte_count + 1;
+            diff_read = (size_t) byte_count - bit_stream->byte_current_read + 1;
 
             /* retrieves the reference to the underlying stream and uses it to
             gather its current position and recalculates the new position using
@@ -213,8 +213,8 @@ void seek_bit_stream(
         else {
             /* decrements the current byte for read by the number of bytes
             and increments the counter by the same amount (buffer move) */
-            bit_stream->byte_current_read -= (unsigned char) byte_count;
-            bit_stream->byte_counter_read += (unsigned char) byte_count;
+            bit_stream->byte_current_read -= (size_t) byte_count;
+            bit_stream->byte_counter_read += (size_t) byte_count;
         }
 
         /* reads the new current byte value from the buffer with the current
-- 
2.43.0


From e0c9a1393b16ad6e60f1076fe6bc244ab2cd446f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 025/110] fix: bit stream does not read past its buffer at the
 end of the stream

---
 src/viriatum_commons/stream/bit_stream.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/stream/bit_stream.c b/src/viriatum_commons/stream/bit_stream.c
index d00a40b..5376d18 100644
--- a/src/viriatum_commons/stream/bit_stream.c
+++ b/src/viriatum_commons/stream/bit_stream.c
@@ -393,8 +393,16 @@ void flush_read_bit_stream(struct bit_stream_t *bit_stream) {
     }
 
     /* retrieves the current byte to be read from the buffer
-    associated with the underlying bit stream (read operation) */
-    bit_stream->current_byte_read = bit_stream->buffer[bit_stream->byte_current_read];
+    associated with the underlying bit stream (read operation),
+    in case there's no more data in the underlying stream the bits
+    past the end of it are read as zeros, the counter is kept going
+    (bellow zero) so that it's possible to seek back from there */
+    if(bit_stream->byte_counter_read == 0 ||
+        bit_stream->byte_counter_read > BIT_STREAM_BUFFER_SIZE) {
+        bit_stream->current_byte_read = 0;
+    } else {
+        bit_stream->current_byte_read = bit_stream->buffer[bit_stream->byte_current_read];
+    }
 
     /* runs the update operations on the byte counter (number
     of bytes pending in the buffer) and the current byte index
-- 
2.43.0


From cabf9a725d326a9acbfb13a6b4e21cd2abac79ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 026/110] fix: memory stream size and position are consistent
 after a seek

---
 src/viriatum_commons/stream/memory_stream.c | 24 ++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/viriatum_commons/stream/memory_stream.c b/src/viriatum_commons/stream/memory_stream.c
index 54de954..5b5e3ee 100644
--- a/src/viriatum_commons/stream/memory_stream.c
+++ b/src/viriatum_commons/stream/memory_stream.c
@@ -97,10 +97,12 @@ void close_memory_stream(struct stream_t *stream) {
 size_t read_memory_stream(struct stream_t *stream, unsigned char *buffer, size_t size) {
     struct memory_stream_t *memory_stream =\
         (struct memory_stream_t *) stream->lower;
-    size_t remaining = memory_stream->size - memory_stream->position;
+    size_t remaining = memory_stream->position < memory_stream->size ?\
+        memory_stream->size - memory_stream->position : 0;
     size_t count = size > remaining ? remaining : size;
     unsigned char *pointer = &memory_stream->buffer[memory_stream->position];
 
+    if(count == 0) { return 0; }
     memcpy(buffer, pointer, count);
     memory_stream->position += count;
 
@@ -113,10 +115,10 @@ size_t write_memory_stream(struct stream_t *stream, unsigned char *buffer, size_
     unsigned char *pointer;
     struct memory_stream_t *memory_stream =\
         (struct memory_stream_t *) stream->lower;
-    size_t remaining = memory_stream->buffer_size - memory_stream->position;
+    size_t required = memory_stream->position + size;
 
-    if(size > remaining) {
-        extra = size - remaining;
+    if(required > memory_stream->buffer_size) {
+        extra = required - memory_stream->buffer_size;
         allocation = extra > SIZE_MEMORY_STREAM ? extra : SIZE_MEMORY_STREAM;
         memory_stream->buffer_size += allocation;
         memory_stream->buffer =    REALLOC(
@@ -125,10 +127,22 @@ size_t write_memory_stream(struct stream_t *stream, unsigned char *buffer, size_
         );
     }
 
+    /* in case the position is past the end of the stream the
+    bytes in between are defined as zeros */
+    if(memory_stream->position > memory_stream->size) {
+        memset(
+            &memory_stream->buffer[memory_stream->size],
+            0,
+            memory_stream->position - memory_stream->size
+        );
+    }
+
     pointer = &memory_stream->buffer[memory_stream->position];
     memcpy(pointer, buffer, size);
     memory_stream->position += size;
-    memory_stream->size += size;
+    if(memory_stream->position > memory_stream->size) {
+        memory_stream->size = memory_stream->position;
+    }
 
     return size;
 }
-- 
2.43.0


From 86e546a03c458d7d6a2519fe70c11e7e0a397479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 027/110] fix: configuration section and key names are always
 defined and bounded

---
 src/viriatum_commons/ini/ini.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/viriatum_commons/ini/ini.c b/src/viriatum_commons/ini/ini.c
index e7d90e9..430341d 100644
--- a/src/viriatum_commons/ini/ini.c
+++ b/src/viriatum_commons/ini/ini.c
@@ -89,6 +89,8 @@ ERROR_CODE process_ini_file(char *file_path, struct sort_map_t **configuration_p
     /* sets the flag that controls if the trailing space
     characters should be removesd from key and values */
     ini_handler_s.remove_spaces = 1;
+    ini_handler_s.section[0] = '\0';
+    ini_handler_s.key[0] = '\0';
 
     /* reads the file contained in the provided file path
     and then tests the error code for error, in case there is an
@@ -190,6 +192,12 @@ ERROR_CODE _ini_section_end_callback(struct ini_engine_t *ini_engine, const unsi
     /* retrieves the ini handler from the template engine context
     then uses it to store the (current) section */
     struct ini_handler_t *ini_handler = (struct ini_handler_t *) ini_engine->context;
+    if(size >= sizeof(ini_handler->section)) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Configuration name is too long"
+        );
+    }
     memcpy(ini_handler->section, pointer, size);
     ini_handler->section[size] = '\0';
 
@@ -207,6 +215,12 @@ ERROR_CODE _ini_key_end_callback(struct ini_engine_t *ini_engine, const unsigned
     then uses it to store the (current) value */
     struct ini_handler_t *ini_handler = (struct ini_handler_t *) ini_engine->context;
     size = ini_handler->remove_spaces ? trailing_size((char *) pointer, size) : size;
+    if(size >= sizeof(ini_handler->key)) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Configuration name is too long"
+        );
+    }
     memcpy(ini_handler->key, pointer, size);
     ini_handler->key[size] = '\0';
 
-- 
2.43.0


From 3b78cf1226f57e706eb5e0b0e3d8bc3ca61c9834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 028/110] fix: last configuration value is read without a new
 line at the end

---
 src/viriatum_commons/ini/ini.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/viriatum_commons/ini/ini.c b/src/viriatum_commons/ini/ini.c
index 430341d..eb78033 100644
--- a/src/viriatum_commons/ini/ini.c
+++ b/src/viriatum_commons/ini/ini.c
@@ -180,6 +180,13 @@ ERROR_CODE process_ini_file(char *file_path, struct sort_map_t **configuration_p
         }
     }
 
+    /* in case the file ends while a value is being parsed (no new
+    line at the end) the end of the file also ends the value */
+    if(state == INI_ENGINE_VALUE) {
+        pointer = &file_buffer[file_size];
+        INI_CALLBACK_DATA(value_end);
+    }
+
     /* releases the buffer used durring the parsing of
     the configuration file (avoids leaks) */
     FREE(file_buffer);
-- 
2.43.0


From 24cfed8e70ca5cac3a256d411c91993812d235fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:03 +0000
Subject: [PATCH 029/110] fix: huffman table decoding closes its output with
 its own operation

---
 src/viriatum_commons/compression/huffman.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum_commons/compression/huffman.c b/src/viriatum_commons/compression/huffman.c
index 53a1ab2..da168ce 100644
--- a/src/viriatum_commons/compression/huffman.c
+++ b/src/viriatum_commons/compression/huffman.c
@@ -232,7 +232,7 @@ void decode_table_huffman(struct huffman_t *huffman, struct stream_t *in, struct
 
     /* closes the output stream flusing all of it's data and then
     closes the input bit based stream also*/
-    in->close(out);
+    out->close(out);
     close_bit_stream(bit_stream);
 
     /* deletes the bit stream structure, avoiding the leak of any
-- 
2.43.0


From 17ef3cfb25fc77cf98a4ff26c1060cd7cf6bf714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:11 +0000
Subject: [PATCH 030/110] fix: huffman coding of streams with less than two
 symbols

---
 src/viriatum_commons/compression/huffman.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/viriatum_commons/compression/huffman.c b/src/viriatum_commons/compression/huffman.c
index da168ce..c258be1 100644
--- a/src/viriatum_commons/compression/huffman.c
+++ b/src/viriatum_commons/compression/huffman.c
@@ -430,6 +430,13 @@ void generate_table_huffman(struct huffman_t *huffman, struct stream_t *stream)
         push_priority_queue(queue, (void *) node);
     }
 
+    /* the tree must contain at least two leafs so that every code
+    has at least one bit, pads it with empty nodes if required */
+    while(queue->size < 2) {
+        create_huffman_node(&node);
+        push_priority_queue(queue, (void *) node);
+    }
+
     /* iterates continuously creating the huffman tree using
     the pre-defined algorithm of frequecies */
     while(TRUE) {
-- 
2.43.0


From 1cc373e30926bca440dc163351c645f92de64cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:09 +0000
Subject: [PATCH 031/110] fix: last character of a template is processed

---
 src/viriatum_commons/template/engine.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/viriatum_commons/template/engine.c b/src/viriatum_commons/template/engine.c
index 8fc501c..21d1f5f 100644
--- a/src/viriatum_commons/template/engine.c
+++ b/src/viriatum_commons/template/engine.c
@@ -162,9 +162,9 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
             current = _getc_template_engine(file, &pointer, &file_size);
         }
 
-        /* in case the end of file has been found, or
-        the file size is zero (breaks) */
-        if(current == EOF || file_size == 0) {
+        /* in case the end of file has been found breaks, note
+        that the end of file value is also a valid character */
+        if(current == (char) EOF && feof(file)) {
             /* breaks the cycle (end of parsing) */
             break;
         }
@@ -413,9 +413,11 @@ char _getc_template_engine(FILE *file, unsigned char **pointer, size_t *size) {
     char current;
 
     /* in case the size is already zero (nothing remaining) */
-    if(size == 0) {
-        /* returns invalid */
-        return 0;
+    if(*size == 0) {
+        /* reads past the end of the file, so that the end of
+        file is set, and then returns invalid */
+        getc(file);
+        return EOF;
     }
 
     /* retrieves the current character
@@ -424,7 +426,7 @@ char _getc_template_engine(FILE *file, unsigned char **pointer, size_t *size) {
 
     /* in case the current retrieved character
     is an end of file nothing should be updated */
-    if(current == EOF) {
+    if(current == (char) EOF && feof(file)) {
         /* returns the character immediately */
         return current;
     }
-- 
2.43.0


From 6b7cd1bbf8c7a1895558b8e311f0afb667dcffdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:09 +0000
Subject: [PATCH 032/110] fix: dollar signs before a template tag and at the
 end of a template

---
 src/viriatum_commons/template/engine.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/viriatum_commons/template/engine.c b/src/viriatum_commons/template/engine.c
index 21d1f5f..4355c0b 100644
--- a/src/viriatum_commons/template/engine.c
+++ b/src/viriatum_commons/template/engine.c
@@ -200,7 +200,7 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
                         TEMPLATE_CALLBACK(tag_close_begin);
                         ahead_set = 0;
                     }
-                } else {
+                } else if(current != '$') {
                     /* resets the state to the "normal" */
                     state = TEMPLATE_ENGINE_NORMAL;
                 }
@@ -390,9 +390,9 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
         }
     }
 
-    /* in case the current state is engine
-    normal (there must be text to be flushed) */
-    if(state == TEMPLATE_ENGINE_NORMAL) {
+    /* in case the current state is engine normal or a tag
+    has not been opened (there must be text to be flushed) */
+    if(state == TEMPLATE_ENGINE_NORMAL || state == TEMPLATE_ENGINE_DOLLAR) {
         /* calls the text end callback */
         TEMPLATE_CALLBACK_DATA(text_end);
     }
-- 
2.43.0


From 51c5384fa77fbd85e639ceeb162099a1219428a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:09 +0000
Subject: [PATCH 033/110] fix: template parameter values that end with the tag
 are kept

---
 src/viriatum_commons/template/engine.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/viriatum_commons/template/engine.c b/src/viriatum_commons/template/engine.c
index 4355c0b..3c86333 100644
--- a/src/viriatum_commons/template/engine.c
+++ b/src/viriatum_commons/template/engine.c
@@ -345,7 +345,9 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
 
                         TEMPLATE_MARK(text_end);
 
-                        /* calls the tag end and text begin callbacks */
+                        /* calls the parameter value, tag end and
+                        text begin callbacks */
+                        TEMPLATE_CALLBACK_DATA_N(parameter_value, 2);
                         TEMPLATE_CALLBACK_DATA(tag_end);
                         TEMPLATE_CALLBACK(text_begin);
 
-- 
2.43.0


From 65e468d53d638e3eb8af07e06047126915a934e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:09 +0000
Subject: [PATCH 034/110] fix: only digits start a template integer value

---
 src/viriatum_commons/template/handler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum_commons/template/handler.c b/src/viriatum_commons/template/handler.c
index 58e770e..46df4d0 100644
--- a/src/viriatum_commons/template/handler.c
+++ b/src/viriatum_commons/template/handler.c
@@ -916,7 +916,7 @@ ERROR_CODE _parameter_value_callback(struct template_engine_t *template_engine,
     }
     /* in case the first character of the raw value is a numeric
     value it must be a number */
-    else if(temporary_parameter->raw_value[0] > 0x2f && temporary_parameter->raw_value[0] < 0x58) {
+    else if(temporary_parameter->raw_value[0] > 0x2f && temporary_parameter->raw_value[0] < 0x3a) {
         temporary_parameter->int_value = atoi((char *) temporary_parameter->raw_value);
         temporary_parameter->type = TEMPLATE_PARAMETER_INTEGER;
     }
-- 
2.43.0


From a73a1a52ae98a5f095b0aa5403edda3b0e784b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 035/110] fix: invalid command line arguments are ignored

---
 src/viriatum_commons/util/arguments_util.c | 27 +++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/viriatum_commons/util/arguments_util.c b/src/viriatum_commons/util/arguments_util.c
index bdb40d4..df069b5 100644
--- a/src/viriatum_commons/util/arguments_util.c
+++ b/src/viriatum_commons/util/arguments_util.c
@@ -42,6 +42,9 @@ ERROR_CODE process_arguments(int argc, char *argv[], struct hash_map_t **argumen
     struct argument_t *argument;
     struct hash_map_t *arguments;
 
+    /* allocates space for the return value */
+    ERROR_CODE return_value;
+
     /* creates the hash map that will hold the various
     arguments */
     create_hash_map(&arguments, 0);
@@ -56,7 +59,15 @@ ERROR_CODE process_arguments(int argc, char *argv[], struct hash_map_t **argumen
         using the default (simple) parser and sets it in
         the arguments map */
         current_argument = argv[index];
-        _process_argument(current_argument, argument);
+        return_value = _process_argument(current_argument, argument);
+
+        /* in case the argument is not valid or is empty it's
+        ignored (no key exists for it) */
+        if(IS_ERROR_CODE(return_value) || argument->key[0] == '\0') {
+            FREE(argument);
+            continue;
+        }
+
         set_value_string_hash_map(
             arguments,
             (unsigned char *) argument->key,
@@ -188,6 +199,8 @@ ERROR_CODE _process_argument(char *argument_value, struct argument_t *argument)
 
     /* sets the argument to type key (just a name) */
     argument->type = SINGLE_ARGUMENT;
+    argument->key[0] = '\0';
+    argument->value[0] = '\0';
 
     /* iterates over all the characters present in
     the argument string to parse the argument */
@@ -238,6 +251,10 @@ ERROR_CODE _process_argument(char *argument_value, struct argument_t *argument)
                     /* sets the argument to type key and value */
                     argument->type = VALUE_ARGUMENT;
 
+                    if(index - mark >= sizeof(argument->key)) {
+                        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem parsing option");
+                    }
+
                     /* copies the key value into the appropriate variable
                     in the argument */
                     memcpy(argument->key, argument_value + mark, index - mark);
@@ -262,6 +279,10 @@ ERROR_CODE _process_argument(char *argument_value, struct argument_t *argument)
     switch(state) {
         case ARGUMENT_SECOND:
         case ARGUMENT_KEY:
+            if(index - mark >= sizeof(argument->key)) {
+                RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem parsing option");
+            }
+
             /* copies the key value into the appropriate variable
             in the argument */
             memcpy(argument->key, argument_value + mark, index - mark);
@@ -271,6 +292,10 @@ ERROR_CODE _process_argument(char *argument_value, struct argument_t *argument)
             break;
 
         case ARGUMENT_VALUE:
+            if(index - mark >= sizeof(argument->value)) {
+                RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem parsing option");
+            }
+
             /* copies the value value into the appropriate variable
             in the argument */
             memcpy(argument->value, argument_value + mark, index - mark);
-- 
2.43.0


From b10e4b552752a8598c559b6faf30923e62338d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:09 +0000
Subject: [PATCH 036/110] fix: file operations on files that cannot be opened
 or read

---
 src/viriatum_commons/io/file.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/io/file.c b/src/viriatum_commons/io/file.c
index 0a1e0a3..42c6e09 100644
--- a/src/viriatum_commons/io/file.c
+++ b/src/viriatum_commons/io/file.c
@@ -101,6 +101,8 @@ ERROR_CODE read_file(char *file_path, unsigned char **buffer_pointer, size_t *fi
     /* in case the number of read bytes is not the
     same as the total bytes in file (error) */
     if(number_bytes != file_size) {
+        fclose(file);
+        FREE(file_buffer);
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem reading from file"
@@ -131,6 +133,12 @@ ERROR_CODE write_file(char *file_path, unsigned char *buffer, size_t buffer_size
     from the provided buffer into it and closes the file to avoid
     any memory leaks */
     FOPEN(&file, file_path, "wb");
+    if(file == NULL) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem writing file"
+        );
+    }
     fwrite(buffer, sizeof(char), buffer_size, file);
     fclose(file);
 
@@ -395,7 +403,7 @@ ERROR_CODE join_path_file(char *base_path, char *name, char *joined_path) {
 
     /* in case the base path ends with the separator
     (no need to add the extra separator)*/
-    if(base_path[base_path_length - 1] == '/') {
+    if(base_path_length > 0 && base_path[base_path_length - 1] == '/') {
         /* adds the name part to the joined path */
         memcpy(joined_path + base_path_length, name, name_length + 1);
     }
@@ -850,7 +858,7 @@ ERROR_CODE list_directory_file(char *file_path, struct linked_list_t *entries) {
         the entry stat structure and then uses it to retrieve its size
         and it's last write time */
         join_path_file(file_path, entity->d_name, entry_full_name);
-        stat(entry_full_name, &entry_stat);
+        if(stat(entry_full_name, &entry_stat) != 0) { memset(&entry_stat, 0, sizeof(entry_stat)); }
         entry->size = entry_stat.st_size;
         get_write_time_file(entry_full_name, &entry->time);
 
-- 
2.43.0


From 313495b2cc6199d41cb37ac636d85ff82dcde587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 037/110] fix: formatted strings are bounded by the size of
 their buffer

---
 src/viriatum_commons/system/system_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/system/system_util.h b/src/viriatum_commons/system/system_util.h
index fb8fc25..a90e577 100644
--- a/src/viriatum_commons/system/system_util.h
+++ b/src/viriatum_commons/system/system_util.h
@@ -62,8 +62,8 @@
 #define LOCAL_TIME(local_time_value, time_value) local_time_value = localtime(time_value)
 #define SLEEP(miliseconds) usleep((useconds_t) miliseconds * 1000)
 #define GET_PID() getpid()
-#define SPRINTF(buffer, size, format, ...) sprintf(buffer, format, __VA_ARGS__)
-#define VSPRINTF(buffer, size, format, arg) vsprintf(buffer, format, arg)
+#define SPRINTF(buffer, size, format, ...) snprintf(buffer, size, format, __VA_ARGS__)
+#define VSPRINTF(buffer, size, format, arg) vsnprintf(buffer, size, format, arg)
 #define SSCANF(buffer, format, ...) sscanf(buffer, format, __VA_ARGS__)
 #define STRTOK(string, delimiter, context) strtok(string, delimiter); dump((void *) &context)
 #define STRCPY(destination, size, source) strcpy(destination, source)
-- 
2.43.0


From 0db0cc1d0bfa0e75c9a2f7a5cf84910253188430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 038/110] fix: header values do not overflow the file handler
 buffers

---
 src/viriatum/handlers/handler_file.c | 12 ++++++++++--
 src/viriatum/handlers/handler_file.h |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index f68fc89..d6e41dd 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -373,24 +373,32 @@ ERROR_CODE header_value_callback_handler_file(struct http_parser_t *http_parser,
     to undefined no parsing will exist */
     switch(handler_file_context->next_header) {
         case ETAG:
-            memcpy(handler_file_context->etag, data, 10);
-            handler_file_context->etag[10] = '\0';
+            /* only the initial part of the value is required for the
+            comparison with the (fixed size) etag values */
+            if(data_size >= sizeof(handler_file_context->etag)) {
+                data_size = sizeof(handler_file_context->etag) - 1;
+            }
+            memcpy(handler_file_context->etag, data, data_size);
+            handler_file_context->etag[data_size] = '\0';
             handler_file_context->etag_status = 2;
             break;
 
         case CACHE_CONTROL:
+            if(data_size >= sizeof(handler_file_context->cache_control)) { break; }
             memcpy(handler_file_context->cache_control, data, data_size);
             handler_file_context->cache_control[data_size] = '\0';
             handler_file_context->cache_control_status = 2;
             break;
 
         case AUTHORIZATION:
+            if(data_size >= sizeof(handler_file_context->authorization)) { break; }
             memcpy(handler_file_context->authorization, data, data_size);
             handler_file_context->authorization[data_size] = '\0';
             handler_file_context->authorization_status = 2;
             break;
 
         case RANGE:
+            if(data_size >= sizeof(handler_file_context->range)) { break; }
             memcpy(handler_file_context->range, data, data_size);
             handler_file_context->range[data_size] = '\0';
             handler_file_context->range_status = 2;
diff --git a/src/viriatum/handlers/handler_file.h b/src/viriatum/handlers/handler_file.h
index 4c12f43..138230a 100644
--- a/src/viriatum/handlers/handler_file.h
+++ b/src/viriatum/handlers/handler_file.h
@@ -223,7 +223,7 @@ typedef struct handler_file_context_t {
      * The value of the authorization header processed for
      * the file retrieval.
      */
-    unsigned char authorization[128];
+    unsigned char authorization[1024];
 
     /**
      * The flag that controls if the authorization value
-- 
2.43.0


From d9332e6fa83f530cac82ce65b8b4d97b8b24495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:27 +0000
Subject: [PATCH 039/110] fix: requests are not able to reach files outside of
 the base directory

---
 src/viriatum/handlers/handler_file.c | 87 ++++++++++++++++++++--------
 src/viriatum/handlers/handler_file.h |  1 +
 2 files changed, 64 insertions(+), 24 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index d6e41dd..297ace7 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -252,6 +252,59 @@ ERROR_CODE message_begin_callback_handler_file(struct http_parser_t *http_parser
     RAISE_NO_ERROR;
 }
 
+ERROR_CODE _decode_path_handler_file(struct handler_file_context_t *handler_file_context, size_t file_path_size, unsigned char *url) {
+    /* allocates space for the return value and for the size
+    of the decoded values */
+    ERROR_CODE return_value;
+    size_t decoded_size;
+
+    /* allocates space for the decoded url and for the values
+    used in the iteration over its segments */
+    unsigned char decoded[VIRIATUM_MAX_URL_SIZE];
+    unsigned char *segment;
+    size_t segment_size;
+
+    /* in case the url is not an absolute path or the file path does
+    not fit its buffer there's no file for it, otherwise decodes the
+    complete file path */
+    if(handler_file_context->url[0] != '/') { goto error; }
+    if(file_path_size >= VIRIATUM_MAX_PATH_SIZE) { goto error; }
+    return_value = decode_percent(
+        handler_file_context->file_path,
+        file_path_size,
+        handler_file_context->file_path_d,
+        &decoded_size
+    );
+    if(IS_ERROR_CODE(return_value)) { goto error; }
+
+    /* a file path that contains a string terminator is not the
+    path to any file, would be handled as a different path */
+    if(strlen((char *) handler_file_context->file_path_d) != decoded_size) { goto error; }
+
+    /* decodes the url part of the file path and verifies that none
+    of its segments is able to leave the base directory */
+    return_value = decode_percent(url, strlen((char *) url), decoded, &decoded_size);
+    if(IS_ERROR_CODE(return_value)) { goto error; }
+    segment = decoded;
+    while(TRUE) {
+        segment_size = strcspn((char *) segment, "/");
+        if(segment_size == 2 && segment[0] == '.' && segment[1] == '.') { goto error; }
+        if(segment[segment_size] == '\0') { break; }
+        segment += segment_size + 1;
+    }
+
+    /* raise no error */
+    RAISE_NO_ERROR;
+
+error:
+    /* sets the empty path as the path, no file exists for it */
+    handler_file_context->file_path_d[0] = '\0';
+    RAISE_ERROR_M(
+        RUNTIME_EXCEPTION_ERROR_CODE,
+        (unsigned char *) "Invalid file path"
+    );
+}
+
 ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     /* allocates memory for the variable that will hold the
     size of the decoded file path */
@@ -273,6 +326,7 @@ ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const un
     /* copies the memory from the data to the url and then
     puts the end of string in the url, note that only the path
     part of the string is used for the url */
+    if(path_size >= VIRIATUM_MAX_URL_SIZE) { path_size = 0; }
     memcpy(handler_file_context->url, data, path_size);
     handler_file_context->url[path_size] = '\0';
 
@@ -299,12 +353,7 @@ ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const un
         handler_file_context->url_d,
         &decoded_size
     );
-    decode_percent(
-        handler_file_context->file_path,
-        file_path_size,
-        handler_file_context->file_path_d,
-        &decoded_size
-    );
+    _decode_path_handler_file(handler_file_context, file_path_size, handler_file_context->url);
 
     /* raise no error */
     RAISE_NO_ERROR;
@@ -445,7 +494,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     /* allocates space for the new location value for
     redirect request cases and for the path to the
     template (for directory listing) */
-    unsigned char location[VIRIATUM_MAX_PATH_SIZE];
+    unsigned char location[VIRIATUM_MAX_URL_SIZE + 2];
     unsigned char template_path[VIRIATUM_MAX_PATH_SIZE];
 
     /* allocates space for the computation of the time
@@ -467,7 +516,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     /* allocates space for the size of the url string to
     be calculates and for the folder path variable */
     size_t url_size;
-    char folder_path[VIRIATUM_MAX_PATH_SIZE];
+    char folder_path[VIRIATUM_MAX_URL_SIZE];
 
     /* allocates space for the temporary buffer that will hold
     the description of the error to be sent to the client in case
@@ -926,6 +975,7 @@ ERROR_CODE path_callback_handler_file(struct http_parser_t *http_parser, const u
     /* copies the memory from the data to the url and then
     puts the end of string in the url, note that only the path
     part of the string is used for the url */
+    if(data_size >= VIRIATUM_MAX_URL_SIZE) { data_size = 0; }
     memcpy(handler_file_context->url, data, data_size);
     handler_file_context->url[data_size] = '\0';
 
@@ -969,22 +1019,13 @@ ERROR_CODE path_callback_handler_file(struct http_parser_t *http_parser, const u
         handler_file_context->url_d,
         &decoded_size
     );
-    decode_percent(
-        handler_file_context->file_path,
-        file_path_size,
-        handler_file_context->file_path_d,
-        &decoded_size
-    );
+    _decode_path_handler_file(handler_file_context, file_path_size, handler_file_context->url);
 
     /* raise no error */
     RAISE_NO_ERROR;
 }
 
 ERROR_CODE location_callback_handler_file(struct http_parser_t *http_parser, size_t index, size_t offset) {
-    /* allocates memory for the variable that will hold the
-    size of the decoded file path */
-    size_t decoded_size;
-
     /* the complete size of the string that contains the file
     path "calculated" from the url */
     size_t file_path_size;
@@ -1018,6 +1059,9 @@ ERROR_CODE location_callback_handler_file(struct http_parser_t *http_parser, siz
     /* verifies if the location's base path is defined in case it's
     not returns immediately as no file path changing is required */
     if(location->base_path == NULL) { RAISE_NO_ERROR; }
+    if(offset > strlen((char *) handler_file_context->url)) {
+        offset = strlen((char *) handler_file_context->url);
+    }
 
     /* retrieves the partial url match by "removing" the initial part
     of the url in context */
@@ -1036,12 +1080,7 @@ ERROR_CODE location_callback_handler_file(struct http_parser_t *http_parser, siz
 
     /* decodes the file path for the percent encoding, this method
     uses constant (pre-allocated) memory for fast performance */
-    decode_percent(
-        handler_file_context->file_path,
-        file_path_size,
-        handler_file_context->file_path_d,
-        &decoded_size
-    );
+    _decode_path_handler_file(handler_file_context, file_path_size, partial_url);
 
     /* raise no error */
     RAISE_NO_ERROR;
diff --git a/src/viriatum/handlers/handler_file.h b/src/viriatum/handlers/handler_file.h
index 138230a..5fe550b 100644
--- a/src/viriatum/handlers/handler_file.h
+++ b/src/viriatum/handlers/handler_file.h
@@ -262,6 +262,7 @@ ERROR_CODE set_handler_file(struct http_connection_t *http_connection);
 ERROR_CODE unset_handler_file(struct http_connection_t *http_connection);
 ERROR_CODE reset_handler_file(struct http_connection_t *http_connection);
 ERROR_CODE message_begin_callback_handler_file(struct http_parser_t *http_parser);
+ERROR_CODE _decode_path_handler_file(struct handler_file_context_t *handler_file_context, size_t file_path_size, unsigned char *url);
 ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size);
 ERROR_CODE header_field_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size);
 ERROR_CODE header_value_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size);
-- 
2.43.0


From 44085a978923bfd98153302f371e86db721abe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 040/110] fix: invalid authorization values do not grant access

---
 src/viriatum/handlers/handler_file.c |  2 +-
 src/viriatum/http/http_util.c        | 28 +++++++++++++++++++++++++---
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index 297ace7..fe487a3 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -571,7 +571,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
         must proceed with the authorization, otherwise invalidates
         the authorization result immediately (no information has
         been provided from the client side) */
-        if(handler_file_context->authorization_status == 2) {
+        if(handler_file_context->authorization_status == 2 && handler_file_context->auth_file != NULL) {
             auth_http(
                 (char *) handler_file_context->auth_file,
                 (char *) handler_file_context->authorization,
diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index 1d4eeb0..8d5a0a0 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -574,8 +574,8 @@ ERROR_CODE auth_file_http(char *auth_file, char *authorization, unsigned char *r
 
     /* allocates space for the buffers to be used for the username
     and password values extracted from the authorization token */
-    char username[128];
-    char password[128];
+    char username[512];
+    char password[512];
     char *password_v;
 
     /* allocates the various size relates values for the buffer
@@ -584,6 +584,10 @@ ERROR_CODE auth_file_http(char *auth_file, char *authorization, unsigned char *r
     size_t username_size;
     size_t password_size;
 
+    /* by default the authorization is not valid, any error must
+    prevent the access to the resource */
+    *result = FALSE;
+
     /* tries to find the token that separates the authentication
     type from the authorization base 64 value in case the value
     is not found raises an error indicating the problem */
@@ -630,6 +634,17 @@ ERROR_CODE auth_file_http(char *auth_file, char *authorization, unsigned char *r
     username_size = password_pointer - authorization_d - 1;
     password_size = authorization_d + authorization_size - password_pointer;
 
+    /* in case any of the values does not fit its buffer or contains
+    a string terminator the authorization is not valid */
+    if(username_size >= sizeof(username) || password_size >= sizeof(password) ||
+        memchr(authorization_d, '\0', authorization_size) != NULL) {
+        FREE(authorization_d);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Authorization value not valid"
+        );
+    }
+
     /* copies both the username and the password values to
     the apropriate internal buffers (to be used in comparision) */
     memcpy(username, authorization_d, username_size);
@@ -640,7 +655,14 @@ ERROR_CODE auth_file_http(char *auth_file, char *authorization, unsigned char *r
     /* processes the passwd file using the provided file path
     for it, this is an expensive io driven operation, and must
     be used wth care */
-    process_passwd_file(auth_file, &passwd);
+    return_value = process_passwd_file(auth_file, &passwd);
+    if(IS_ERROR_CODE(return_value)) {
+        FREE(authorization_d);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem reading the passwd file"
+        );
+    }
 
     /* retrieves the password verification value for the
     retrieved username and in case it's valid compares it
-- 
2.43.0


From 2d7256893a7511eec2f5ec80cd3d591dec4891f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:51 +0000
Subject: [PATCH 041/110] fix: byte ranges validated, clamped and suffix ranges
 supported

---
 src/viriatum/handlers/handler_file.c | 40 +++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index fe487a3..dfb0fd2 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -710,6 +710,19 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
         }
     }
 
+    /* retrieves the initial and final bytes for the requested
+    range, the final range is set in accordance with the file
+    size that is provided, note that in case the range is not
+    valid it is ignored (complete contents are sent) */
+    if(handler_file_context->range_status == 2 && is_directory == FALSE && !IS_ERROR_CODE(error_code)) {
+        if(IS_ERROR_CODE(get_http_range_limits(
+            handler_file_context->range,
+            &handler_file_context->initial_byte,
+            &handler_file_context->final_byte,
+            file_size
+        ))) { handler_file_context->range_status = 0; }
+    }
+
     /* sets the (HTTP) flags in the handler file context */
     handler_file_context->flags = http_parser->flags;
 
@@ -845,19 +858,26 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
             handler_file_context
         );
     }
+    /* in case the range is not satisfiable, no byte of the file is
+    part of it, an error must be sent to the client indicating that */
+    else if(handler_file_context->range_status == 2 &&\
+        handler_file_context->initial_byte > handler_file_context->final_byte) {
+        write_http_error(
+            connection,
+            headers_buffer,
+            VIRIATUM_HTTP_SIZE,
+            HTTP11,
+            416,
+            "Range Not Satisfiable",
+            NULL,
+            keep_alive ? KEEP_ALIVE : KEEP_CLOSE,
+            _cleanup_handler_file,
+            handler_file_context
+        );
+    }
     /* in case the range value is set for the current file request
     must calculate the range and retrive the associated file chunk */
     else if(handler_file_context->range_status == 2) {
-        /* retrieves the initial and final bytes for the requested
-        range, the final range is set in accordance with the file
-        size that is provided */
-        get_http_range_limits(
-            handler_file_context->range,
-            &handler_file_context->initial_byte,
-            &handler_file_context->final_byte,
-            file_size
-        );
-
         /* writes the HTTP static headers to the response indicating
         that only a part of the file is going to be retrieved, then
         writes also the content range header indicating which bytes
-- 
2.43.0


From 484a0608fb3ff0a77db1a8c0be4c9016861534e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:05 +0000
Subject: [PATCH 042/110] fix: request parameters encode keys and keep the
 values unchanged

---
 src/viriatum/http/http_util.c | 74 ++++++++++++++++++++++++++++++++---
 1 file changed, 69 insertions(+), 5 deletions(-)

diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index 8d5a0a0..1085b96 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -426,6 +426,28 @@ ERROR_CODE write_http_error_a(
     RAISE_NO_ERROR;
 }
 
+static char validate_http_range(unsigned char *range) {
+    /* allocates space for the counters of the digits existing
+    in both the initial and the final parts of the range */
+    size_t initial_count;
+    size_t final_count;
+
+    /* verifies that the unit of the range is the bytes one and then
+    skips it moving the reference to the initial part of the range */
+    if(strncmp((char *) range, "bytes=", 6) != 0) { return FALSE; }
+    range += 6;
+
+    /* counts the digits in both parts of the range, the only accepted
+    format is a single range with at least one of the parts defined, note
+    that values that do not fit a signed integer are not accepted */
+    initial_count = strspn((char *) range, "0123456789");
+    if(range[initial_count] != '-') { return FALSE; }
+    final_count = strspn((char *) &range[initial_count + 1], "0123456789");
+    if(range[initial_count + final_count + 1] != '\0') { return FALSE; }
+    if(initial_count == 0 && final_count == 0) { return FALSE; }
+    return initial_count < 19 && final_count < 19;
+}
+
 ERROR_CODE get_http_range_limits(unsigned char *range, size_t *initial_byte, size_t *final_byte, size_t size) {
     /* allocates space for the byte to be used in the iteration,
     for the mark value and for the iteration index counter */
@@ -444,6 +466,19 @@ ERROR_CODE get_http_range_limits(unsigned char *range, size_t *initial_byte, siz
     length if a string function */
     size_t range_s = strlen((char *) range);
 
+    /* sets the flag that controls if the range is a suffix one
+    meaning that only the number of (last) bytes is defined */
+    char suffix = FALSE;
+
+    /* verifies that the range value is a well formed single range
+    otherwise an error is raised and the range should be ignored */
+    if(validate_http_range(range) == FALSE) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Invalid range value"
+        );
+    }
+
     /* initializes the mark value with a zero indicating that the
     equals separator may not be found (avoids critical problems) */
     mark = 0;
@@ -460,7 +495,7 @@ ERROR_CODE get_http_range_limits(unsigned char *range, size_t *initial_byte, siz
                 break;
 
             case '-':
-                if(index == 0) { initial_byte_v = 0; }
+                if(index == mark) { suffix = TRUE; initial_byte_v = 0; }
                 else {
                     start = (char *) &range[mark];
                     end = (char *) &range[index - 1];
@@ -492,6 +527,28 @@ ERROR_CODE get_http_range_limits(unsigned char *range, size_t *initial_byte, siz
         }
     }
 
+    /* in case the range is a suffix one the final value contains the
+    number of bytes to be retrieved from the end of the contents */
+    if(suffix == TRUE) {
+        initial_byte_v = final_byte_v < (long long) size ? (long long) size - final_byte_v : 0;
+        final_byte_v = final_byte_v == 0 ? -1 : (long long) size - 1;
+    }
+
+    /* verifies that the limits of the range are coherent in case
+    they are not the range is considered invalid (to be ignored) */
+    else if(range[range_s - 1] != '-' && final_byte_v < initial_byte_v) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Invalid range limits"
+        );
+    }
+
+    /* limits the final byte to the size of the contents and in case
+    no byte may be retrieved uses an impossible range of values (initial
+    byte greater than the final one) to represent it */
+    if(final_byte_v >= (long long) size) { final_byte_v = (long long) size - 1; }
+    if(initial_byte_v > final_byte_v) { initial_byte_v = 1; final_byte_v = 0; }
+
     /* updates both the initial and the final byte pointer
     references with the appropriate values */
     *initial_byte = initial_byte_v > 0 ? (size_t) initial_byte_v : 0;
@@ -702,10 +759,13 @@ ERROR_CODE parameters_http(struct hash_map_t *hash_map, unsigned char **buffer_p
     for the buffer string from the element and for the corresponding
     string lengths for both cases */
     struct string_t *string;
+    struct string_t encoded;
     unsigned char *string_value;
     unsigned char *_buffer;
+    unsigned char *key_buffer;
     size_t string_length;
     size_t _length;
+    size_t key_length;
 
     /* allocates and sets the initial value on the flag that controls
     if the iteratio to generate key values is the first one */
@@ -737,14 +797,18 @@ ERROR_CODE parameters_http(struct hash_map_t *hash_map, unsigned char **buffer_p
         own contents (avoids extra memory usage) */
         string = (struct string_t *) element->value;
         url_encode(string->buffer, string->length, &_buffer, &_length);
-        string->buffer = _buffer;
-        string->length = _length;
+        encoded.buffer = _buffer;
+        encoded.length = _length;
+
+        /* encodes the key in the same manner as the value, as it may also
+        contain characters that would be mistaken by separators */
+        url_encode(element->key_string, strlen((char *) element->key_string), &key_buffer, &key_length);
 
         /* adds the various elements for the value to the string buffer
         first the key the the attribution operator and then the value */
-        append_string_buffer(string_buffer, (unsigned char *) element->key_string);
+        _append_string_l_buffer(string_buffer, key_buffer, key_length);
         append_string_l_buffer(string_buffer, (unsigned char *) "=", sizeof("=") - 1);
-        _append_string_t_buffer(string_buffer, string);
+        _append_string_t_buffer(string_buffer, &encoded);
     }
 
     /* "joins" the string buffer values into a single
-- 
2.43.0


From 5359620f40a5e7058964df8139083f8c3adfc7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:12 +0000
Subject: [PATCH 043/110] fix: dispatch bounds the path and resolves index
 handlers safely

---
 src/viriatum/handlers/handler_dispatch.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/handlers/handler_dispatch.c b/src/viriatum/handlers/handler_dispatch.c
index d608614..50e502b 100644
--- a/src/viriatum/handlers/handler_dispatch.c
+++ b/src/viriatum/handlers/handler_dispatch.c
@@ -203,6 +203,9 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
     base path, this is done through static allocation */
     unsigned char path[VIRIATUM_MAX_URL_SIZE];
     unsigned char base_path[VIRIATUM_MAX_URL_SIZE];
+    unsigned char base_path_d[VIRIATUM_MAX_URL_SIZE];
+    size_t decoded_size;
+    ERROR_CODE error_code;
 
     /* retrieves the various connection elements and lower substrates
     fomr the parser parameters and then uses them to retrieves the handler
@@ -222,6 +225,10 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
     char *pointer = (char *) memchr((char *) data, '?', data_size);
     size_t path_size = pointer == NULL ? data_size : pointer - (char *) data;
 
+    /* in case the path (and a possible index file name) does not fit
+    the path buffer there's no handler able to process the request */
+    if(path_size + 128 >= VIRIATUM_MAX_URL_SIZE) { RAISE_NO_ERROR; }
+
     /* copies the memory from the data to the path (partial url),
     then puts the end of string in the path */
     memcpy(path, data, path_size);
@@ -274,7 +281,8 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
             and the current provided path and then runs the file existence
             validation process using the index array provided */
             SPRINTF((char *) base_path, VIRIATUM_MAX_PATH_SIZE, "%s%s", VIRIATUM_CONTENTS_PATH, path);
-            index_ = validate_file((char *) base_path, (char *) options->index, 32, 128);
+            error_code = decode_percent(base_path, strlen((char *) base_path), base_path_d, &decoded_size);
+            index_ = IS_ERROR_CODE(error_code) ? NULL : validate_file((char *) base_path_d, (char *) options->index, 32, 128);
 
             /* in case the index file resolution was successfull
             (a new file was resolved) must match the file path through
@@ -297,6 +305,11 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
                 for the current request */
                 _index = index;
 
+                /* resets the match related values, the initial match does not
+                refer the path of the index file (may have no match at all) */
+                regex_match = 0;
+                handler_name = (unsigned char *) DISPATCH_DEFAULT_HANDLER;
+
                 /* iterates over all the regular expressions so that they
                 may be tested agains the current path */
                 for(index = 0; index < dispatch_handler->regex_count; index++) {
@@ -316,6 +329,10 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
                 /* in case the matching index has changed a new handler reference
                 must be retrieved from the map containing the HTTP handlers */
                 if(index != _index) { get_value_string_hash_map(service->http_handlers_map, handler_name, (void **) &handler); }
+                if(handler == NULL) {
+                    V_ERROR_F("Error retrieving '%s' handler reference\n", handler_name);
+                    RAISE_NO_ERROR;
+                }
 #endif
             }
         }
@@ -340,7 +357,7 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
             if the matched value starts with a slash value for such cases the
             offset to the virtual url must be reduced otherwise abnormal values
             to the url would be considered (creating additional path problems) */
-            virtual_url_offset = match_size > 0 && data[match_size - 1] == '/' ?\
+            virtual_url_offset = match_size > 0 && path[match_size - 1] == '/' ?\
                 match_size - 1 : match_size;
             CALL_V(
                 http_connection->http_settings->on_location,
@@ -348,6 +365,7 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
                 index,
                 virtual_url_offset
             );
+            if(virtual_url_offset > data_size) { virtual_url_offset = data_size; }
             CALL_V(
                 http_connection->http_settings->on_virtual_url,
                 http_parser,
-- 
2.43.0


From b22551cd7bffbf23682360a4a41a5786f4ccbcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:24 +0000
Subject: [PATCH 044/110] fix: proxy requests of any size are forwarded

---
 src/viriatum/handlers/handler_proxy.c | 27 +++++++++------------------
 src/viriatum/handlers/handler_proxy.h |  2 +-
 2 files changed, 10 insertions(+), 19 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 32525db..7df5923 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -484,15 +484,6 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     struct custom_parameters_t *parameters;
     struct connection_t *connection_c;
 
-    /* sets space for the resulting size of the buffer that will hold
-    the status line to be sent to the backend connection */
-    size_t size_m;
-
-    /* allocates two buffers for temporary and local operations to
-    in the current callback function */
-    char buffer[1024];
-    char path[1024];
-
     /* allocates space fot the temporary variable that will store the
     on close handler that will be set in the associative map */
     io_connection_callback on_close;
@@ -523,15 +514,15 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
 
-    /* copies the virtual url value into the local path buffer and then
-    closes it as a null terminated string */
-    memcpy(path, data, data_size);
-    path[data_size] = '\0';
-
-    /* writes the initial line of the HTTP message into the temporary buffer
-    and then sends this value to the current buffer for writing */
-    size_m = SPRINTF(buffer, 1024, "%s %s %s\r\n", method, path, version);
-    write_proxy_buffer(handler_proxy_context, buffer, size_m);
+    /* writes the initial line of the HTTP message into the buffer for
+    writing, note that the path in it is always an absolute one */
+    write_proxy_buffer(handler_proxy_context, (char *) method, strlen(method));
+    write_proxy_buffer(handler_proxy_context, " ", 1);
+    if(data_size == 0 || data[0] != '/') { write_proxy_buffer(handler_proxy_context, "/", 1); }
+    write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
+    write_proxy_buffer(handler_proxy_context, " ", 1);
+    write_proxy_buffer(handler_proxy_context, (char *) version, strlen(version));
+    write_proxy_buffer(handler_proxy_context, "\r\n", 2);
 
     /*@todo: can put here the extra headers to be sent to the backend */
     write_proxy_buffer(handler_proxy_context, "X-Viriatum-Proxy:1\r\n", 20);
diff --git a/src/viriatum/handlers/handler_proxy.h b/src/viriatum/handlers/handler_proxy.h
index 87b058c..96721a4 100644
--- a/src/viriatum/handlers/handler_proxy.h
+++ b/src/viriatum/handlers/handler_proxy.h
@@ -247,7 +247,7 @@ static __inline void write_proxy_out_buffer(struct handler_proxy_context_t *cont
 static __inline void write_proxy_buffer(struct handler_proxy_context_t *context, char *data, size_t size) {
     if(context->buffer_size + size > context->buffer_max_size) {
         context->buffer_max_size = (context->buffer_size + size) * 2;
-        context->out_buffer = REALLOC(context->buffer, context->buffer_max_size);
+        context->buffer = REALLOC(context->buffer, context->buffer_max_size);
     }
 
     memcpy(&context->buffer[context->buffer_size], data, size);
-- 
2.43.0


From fd6b4f30a842a2f1f6e71290895a96287810ae5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 045/110] fix: chunked bodies keep their framing through the
 proxy

---
 src/viriatum/handlers/handler_proxy.c | 31 +++++++++++++++++++++++----
 src/viriatum/handlers/handler_proxy.h |  9 ++++++++
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 7df5923..bf475fe 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -390,6 +390,18 @@ ERROR_CODE headers_complete_callback_handler_proxy(struct http_parser_t *http_pa
 ERROR_CODE body_callback_handler_proxy(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
+
+    /* in case the body is chunked it must be encoded once again as the
+    data provided by the parser does not include the chunk framing */
+    char *buffer;
+    if(data_size > 0 && (http_parser->flags & FLAG_CHUNKED)) {
+        buffer = MALLOC(data_size + 32);
+        data_size = write_chunk_proxy(buffer, data, data_size);
+        write_proxy_buffer(handler_proxy_context, buffer, data_size);
+        FREE(buffer);
+        RAISE_NO_ERROR;
+    }
+
     write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
     RAISE_NO_ERROR;
 }
@@ -433,6 +445,7 @@ ERROR_CODE message_complete_callback_handler_proxy(struct http_parser_t *http_pa
             (void *) (size_t) http_parser->flags
         );
     } else {
+        if(http_parser->flags & FLAG_CHUNKED) { write_proxy_buffer(handler_proxy_context, "0\r\n\r\n", 5); }
         write_connection_c(
             handler_proxy_context->connection_c,
             (unsigned char *) handler_proxy_context->buffer,
@@ -882,8 +895,16 @@ ERROR_CODE body_callback_backend(struct http_parser_t *http_parser, const unsign
     /* allocates a buffer of the same size of the received body
     data and then copies the data into this new buffer, then
     writes the buffer into the current (proxy client) connection */
-    char *buffer = MALLOC(data_size);
+    char *buffer = MALLOC(data_size + 32);
     memcpy(buffer, data, data_size);
+
+    /* in case the body is chunked it must be encoded once again as the
+    data provided by the parser does not include the chunk framing, note
+    that an empty chunk would be the final one (ignored) */
+    if(http_parser->flags & FLAG_CHUNKED) {
+        if(data_size == 0) { FREE(buffer); RAISE_NO_ERROR; }
+        data_size = write_chunk_proxy(buffer, data, data_size);
+    }
     write_connection(
         connection,
         (unsigned char *) buffer,
@@ -915,11 +936,13 @@ ERROR_CODE message_complete_callback_backend(struct http_parser_t *http_parser)
 
     /* writes the final (empty value) to the connection stream so that
     the cleanup handler callback is called at the end of all the pending
-    write operations, this is a required "empty" operation */
+    write operations, this is a required "empty" operation (except for
+    chunked contents where it contains the final chunk) */
+    unsigned char chunked = http_parser->flags & FLAG_CHUNKED;
     write_connection_c(
         connection,
-        (unsigned char *) "",
-        0,
+        (unsigned char *) (chunked ? "0\r\n\r\n" : ""),
+        chunked ? 5 : 0,
         _cleanup_handler_proxy,
         (void *) (size_t) http_parser->flags,
         FALSE
diff --git a/src/viriatum/handlers/handler_proxy.h b/src/viriatum/handlers/handler_proxy.h
index 96721a4..8f7b424 100644
--- a/src/viriatum/handlers/handler_proxy.h
+++ b/src/viriatum/handlers/handler_proxy.h
@@ -244,6 +244,15 @@ static __inline void write_proxy_out_buffer(struct handler_proxy_context_t *cont
     context->out_buffer_size += size;
 }
 
+static __inline size_t write_chunk_proxy(char *buffer, const unsigned char *data, size_t size) {
+    /* writes the chunk with the provided data into the buffer, that
+    must have at least 32 bytes more than the size of the data */
+    size_t offset = SPRINTF(buffer, 32, "%lx\r\n", (unsigned long) size);
+    memcpy(&buffer[offset], data, size);
+    memcpy(&buffer[offset + size], "\r\n", 2);
+    return offset + size + 2;
+}
+
 static __inline void write_proxy_buffer(struct handler_proxy_context_t *context, char *data, size_t size) {
     if(context->buffer_size + size > context->buffer_max_size) {
         context->buffer_max_size = (context->buffer_size + size) * 2;
-- 
2.43.0


From d5a0ae4e02fd7718743161f49f3c2210b01dccae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:41 +0000
Subject: [PATCH 046/110] fix: proxied status codes outside of the table are
 not read from it

---
 src/viriatum/handlers/handler_proxy.c | 6 +++++-
 src/viriatum/http/http_util.h         | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index bf475fe..743e080 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -817,7 +817,11 @@ ERROR_CODE line_callback_backend(struct http_parser_t *http_parser) {
     and the equivalent status message from the pre-defined ones */
     const char *version = get_http_version_string(version_e);
     unsigned short status_code = http_parser->status_code;
-    const char *status_message = GET_HTTP_STATUS(status_code);
+    const char *status_message = NULL;
+    if(status_code >= 100 && status_code < 600 && status_code % 100 < 64) {
+        status_message = GET_HTTP_STATUS(status_code);
+    }
+    if(status_message == NULL) { status_message = "Unknown"; }
 
     /* writes the status line (should mimic the received one) into a local
     buffer and then writes this buffer into the output buffer */
diff --git a/src/viriatum/http/http_util.h b/src/viriatum/http/http_util.h
index c4ff195..952fb13 100644
--- a/src/viriatum/http/http_util.h
+++ b/src/viriatum/http/http_util.h
@@ -131,7 +131,7 @@ static const char *http_status_codes[5][64] = {
         "Request Timeout",
         "Conflict",
         "Gone",
-        "Length Required"
+        "Length Required",
         "Precondition Failed",
         "Request Entity Too Large",
         "Request-URI Too Long",
-- 
2.43.0


From 4e7e21d12240387dc66e2c166de1e99fa3e5b9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:41 +0000
Subject: [PATCH 047/110] fix: socket closed when the connection to a host
 fails

---
 src/viriatum/system/client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/viriatum/system/client.c b/src/viriatum/system/client.c
index ad23739..4d398ca 100644
--- a/src/viriatum/system/client.c
+++ b/src/viriatum/system/client.c
@@ -63,6 +63,7 @@ ERROR_CODE _create_client_connection(struct connection_t **connection_pointer, s
     an error indicating the problem */
     server = SOCKET_GET_HOST_BY_NAME(hostname);
     if(server == NULL) {
+        SOCKET_CLOSE(socket_handle);
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "No such host"
@@ -80,6 +81,7 @@ ERROR_CODE _create_client_connection(struct connection_t **connection_pointer, s
     a problem in the connection attempt, raises an error */
     error = SOCKET_CONNECT_SIZE(socket_handle, serv_addr, sizeof(SOCKET_ADDRESS_INTERNET));
     if(SOCKET_TEST_ERROR(error)) {
+        SOCKET_CLOSE(socket_handle);
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem connecting to host"
-- 
2.43.0


From 9038d0b5729ebf7f01f03c48eafb1e131b5a1c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:05 +0000
Subject: [PATCH 048/110] fix: proxy backend connections not re-used for other
 locations

---
 src/viriatum/handlers/handler_proxy.c | 21 +++++++++++++++++++++
 src/viriatum/handlers/handler_proxy.h |  7 +++++++
 2 files changed, 28 insertions(+)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 743e080..06fe966 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -53,6 +53,7 @@ ERROR_CODE create_proxy_handler(struct proxy_handler_t **proxy_handler_pointer,
     to resolve the proxy connection to the old set on close handler so that
     it's possible to propagate the on close callback call */
     create_hash_map(&proxy_handler->on_close_map, 0);
+    create_hash_map(&proxy_handler->pass_map, 0);
 
     /* sets the proxy handler in the proxy handler pointer and returns
     the control flow to the caller function with no error */
@@ -75,6 +76,7 @@ ERROR_CODE delete_proxy_handler(struct proxy_handler_t *proxy_handler) {
     with the proxy with the upper on close handler that has been replaced
     in order to provide the backend connection removal */
     delete_hash_map(proxy_handler->on_close_map);
+    delete_hash_map(proxy_handler->pass_map);
 
     /* releases the proxy handler, avoiding any memory leaks
     that may be raised from this main structure and then returns
@@ -497,6 +499,10 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     struct custom_parameters_t *parameters;
     struct connection_t *connection_c;
 
+    /* allocates space for the pass value that was used in the creation
+    of a previous backend connection */
+    unsigned char *proxy_pass;
+
     /* allocates space fot the temporary variable that will store the
     on close handler that will be set in the associative map */
     io_connection_callback on_close;
@@ -554,6 +560,15 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
         (void **) &handler_proxy_context->connection_c
     );
 
+    /* in case the existing backend connection was created for a different
+    pass value it may not be used for the current request and is closed */
+    get_value_hash_map(proxy_handler->pass_map, (size_t) connection, NULL, (void **) &proxy_pass);
+    if(handler_proxy_context->connection_c != NULL && proxy_pass != handler_proxy_context->proxy_pass) {
+        connection_c = handler_proxy_context->connection_c;
+        connection_c->close_connection(connection_c);
+        handler_proxy_context->connection_c = NULL;
+    }
+
     /* creates the parameters object that is going to be passed to
     the connection and used on the open operation to guide it's
     creation, this is a custom protocol connection so the proper
@@ -627,6 +642,12 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
         /* sets the reverse connection map, associating the client
         (backend) connection with its own client proxy to be used
         in the backend operation callbacks */
+        set_value_hash_map(
+            proxy_handler->pass_map,
+            (size_t) connection,
+            NULL,
+            (void *) handler_proxy_context->proxy_pass
+        );
         set_value_hash_map(
             proxy_handler->reverse_map,
             (size_t) handler_proxy_context->connection_c,
diff --git a/src/viriatum/handlers/handler_proxy.h b/src/viriatum/handlers/handler_proxy.h
index 8f7b424..7619b0e 100644
--- a/src/viriatum/handlers/handler_proxy.h
+++ b/src/viriatum/handlers/handler_proxy.h
@@ -94,6 +94,13 @@ typedef struct proxy_handler_t {
      * is able to call the old on close handler.
      */
     struct hash_map_t *on_close_map;
+
+    /**
+     * Map structure that associates the client connection with the
+     * pass (url) that was used in the creation of its backend connection,
+     * so that the connection is only re-used for the same pass.
+     */
+    struct hash_map_t *pass_map;
 } proxy_handler;
 
 /**
-- 
2.43.0


From 5d7173c94d54eee0a92e6417751a8f20fead20b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:05 +0000
Subject: [PATCH 049/110] fix: proxy client notified when the backend closes
 the connection

---
 src/viriatum/handlers/handler_proxy.c | 38 +++++++++++++++++++++------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 06fe966..f0cb78d 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -447,6 +447,7 @@ ERROR_CODE message_complete_callback_handler_proxy(struct http_parser_t *http_pa
             (void *) (size_t) http_parser->flags
         );
     } else {
+        handler_proxy_context->pending = TRUE;
         if(http_parser->flags & FLAG_CHUNKED) { write_proxy_buffer(handler_proxy_context, "0\r\n\r\n", 5); }
         write_connection_c(
             handler_proxy_context->connection_c,
@@ -579,11 +580,11 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     parameters->on_close = close_backend_handler;
     parameters->parameters = (void *) handler_proxy_context;
 
-    /* updates the current proxy context so that the pending flag is set
-    this means that the message to be sent to the proxy client is in the
-    middle of the processing, any connection dropped in this state should
-    also drop the connection to the proxy client */
-    handler_proxy_context->pending = TRUE;
+    /* updates the current proxy context so that the pending flag is unset
+    it's going to be set once the message is sent, meaning that the message to
+    be sent to the proxy client is in the middle of the processing, any connection
+    dropped in that state should also drop the connection to the proxy client */
+    handler_proxy_context->pending = FALSE;
 
     /* sets the initial values for the number of bytes pending in the write
     buffer to be writen this value will be used to control the read stream
@@ -798,10 +799,26 @@ ERROR_CODE close_backend_handler(struct io_connection_t *io_connection) {
 
         /* in case there's data currently pending then the final connection cleanup
         operation has not been yet scheduled, so one must be scheduled to close
-        the service (proxy client) connection */
-        if(handler_proxy_context->pending) {
+        the service (proxy client) connection, in case nothing was sent to it an
+        error is sent before the closing of the connection */
+        if(handler_proxy_context->pending && handler_proxy_context->out_buffer_size == 0) {
+            handler_proxy_context->pending = FALSE;
+            write_http_error(
+                connection_s,
+                MALLOC(VIRIATUM_HTTP_SIZE),
+                VIRIATUM_HTTP_SIZE,
+                HTTP11,
+                502,
+                "Bad gateway",
+                "Invalid proxy connection",
+                KEEP_CLOSE,
+                _cleanup_handler_proxy,
+                NULL
+            );
+        } else if(handler_proxy_context->pending) {
+            handler_proxy_context->pending = FALSE;
             write_connection_c(
-                connection,
+                connection_s,
                 (unsigned char *) "",
                 0,
                 _cleanup_handler_proxy,
@@ -809,6 +826,11 @@ ERROR_CODE close_backend_handler(struct io_connection_t *io_connection) {
                 FALSE
             );
         }
+
+        /* releases the custom parameters as the context is no longer able
+        to do it, the backend connection is not set in it */
+        FREE(custom_parameters);
+        connection->parameters = NULL;
     }
 
     /* raises no error as the processing of the close opearion
-- 
2.43.0


From 85debf4830c392928949defca32b2e2f54219a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:37 +0000
Subject: [PATCH 050/110] fix: proxied request data outlives the context on
 early responses

---
 src/viriatum/handlers/handler_proxy.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index f0cb78d..93dd682 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -449,13 +449,16 @@ ERROR_CODE message_complete_callback_handler_proxy(struct http_parser_t *http_pa
     } else {
         handler_proxy_context->pending = TRUE;
         if(http_parser->flags & FLAG_CHUNKED) { write_proxy_buffer(handler_proxy_context, "0\r\n\r\n", 5); }
-        write_connection_c(
+        /* creates a copy of the request to be owned by the connection, as the
+        context may be released (early response) before it's completely sent */
+        buffer = MALLOC(handler_proxy_context->buffer_size);
+        memcpy(buffer, handler_proxy_context->buffer, handler_proxy_context->buffer_size);
+        write_connection(
             handler_proxy_context->connection_c,
-            (unsigned char *) handler_proxy_context->buffer,
+            (unsigned char *) buffer,
             handler_proxy_context->buffer_size,
             NULL,
-            NULL,
-            FALSE
+            NULL
         );
     }
 
-- 
2.43.0


From 2a7a97069ec2bcc0766fe5503d62d72d1f3f2ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:40 +0000
Subject: [PATCH 051/110] fix: backend responses split in several segments
 proxied correctly

---
 src/viriatum/handlers/handler_proxy.c | 55 ++++++++++++++++++++++++++-
 src/viriatum/handlers/handler_proxy.h | 24 ++++++++++++
 2 files changed, 78 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 93dd682..d86d9c9 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -105,6 +105,9 @@ ERROR_CODE create_handler_proxy_context(struct handler_proxy_context_t **handler
     handler_proxy_context->connection_c = NULL;
     handler_proxy_context->pending = FALSE;
     handler_proxy_context->pending_write = 0;
+    handler_proxy_context->head_buffer = NULL;
+    handler_proxy_context->head_size = 0;
+    handler_proxy_context->head = FALSE;
 
     /* creates a new set of HTTP settings and parser for the new
     context that is being created, these are going to be used in
@@ -139,6 +142,7 @@ ERROR_CODE delete_handler_proxy_context(struct handler_proxy_context_t *handler_
     /* in case the output buffer for the current proxy context is
     defined it must be properly released to avoid memory leaks */
     if(handler_proxy_context->out_buffer) { FREE(handler_proxy_context->out_buffer); }
+    if(handler_proxy_context->head_buffer) { FREE(handler_proxy_context->head_buffer); }
 
     /* in case the HTTP settings structure is defined for the current
     context it must be release in order to avoid any leaks */
@@ -689,7 +693,24 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     RAISE_NO_ERROR;
 }
 
+static size_t find_head_end(const char *buffer, size_t buffer_size) {
+    /* tries to find the empty line that closes the head of the message
+    returning the number of bytes in the head (zero if not found) */
+    size_t index;
+    for(index = 0; index + 1 < buffer_size; index++) {
+        if(buffer[index] != '\n') { continue; }
+        if(buffer[index + 1] == '\n') { return index + 2; }
+        if(index + 2 < buffer_size && buffer[index + 1] == '\r' && buffer[index + 2] == '\n') { return index + 3; }
+    }
+    return 0;
+}
+
 ERROR_CODE data_backend_handler(struct io_connection_t *io_connection, unsigned char *buffer, size_t buffer_size) {
+    /* allocates space for the number of bytes processed by the parser and
+    for the reference to the data to be processed by it */
+    int processed;
+    char *head_buffer;
+
     /* allocates space for the proxy context that may be retrieved
     latter in the function */
     struct handler_proxy_context_t *handler_proxy_context;
@@ -710,16 +731,48 @@ ERROR_CODE data_backend_handler(struct io_connection_t *io_connection, unsigned
     handler_proxy_context =\
         (struct handler_proxy_context_t *) custom_parameters->parameters;
 
+    /* in case there's no message pending no response is expected from
+    the backend server and so the data is ignored */
+    if(handler_proxy_context->pending == FALSE) { RAISE_NO_ERROR; }
+
+    /* in case the head of the response is not yet complete joins the data
+    with the previously received one, only when it's complete is the data
+    processed as the parser requires it to be in contiguous memory */
+    if(handler_proxy_context->head == FALSE) {
+        handler_proxy_context->head_buffer = REALLOC(
+            handler_proxy_context->head_buffer,
+            handler_proxy_context->head_size + buffer_size
+        );
+        memcpy(&handler_proxy_context->head_buffer[handler_proxy_context->head_size], buffer, buffer_size);
+        handler_proxy_context->head_size += buffer_size;
+        if(find_head_end(handler_proxy_context->head_buffer, handler_proxy_context->head_size) == 0) {
+            if(handler_proxy_context->head_size > VIRIATUM_MAX_HEAD_SIZE) {
+                connection->close_connection(connection);
+            }
+            RAISE_NO_ERROR;
+        }
+        handler_proxy_context->head = TRUE;
+        buffer = (unsigned char *) handler_proxy_context->head_buffer;
+        buffer_size = handler_proxy_context->head_size;
+    }
+
     /* runs the process operation (parser iteration) using the buffer that contains
     the data that has been retrieved from the backend server, this should trigger a
     series of callbacks for the various stages of the parsing, then returns the control
     flow to the caller function (everything went well) */
-    process_data_http_parser(
+    head_buffer = handler_proxy_context->head_buffer;
+    handler_proxy_context->head_buffer = NULL;
+    processed = process_data_http_parser(
         handler_proxy_context->http_parser,
         handler_proxy_context->http_settings,
         buffer,
         buffer_size
     );
+    if(head_buffer) { FREE(head_buffer); }
+
+    /* in case the response is not a valid one the backend connection is
+    closed, this should notify the proxy client about the problem */
+    if(processed < 0) { connection->close_connection(connection); }
     RAISE_NO_ERROR;
 }
 
diff --git a/src/viriatum/handlers/handler_proxy.h b/src/viriatum/handlers/handler_proxy.h
index 7619b0e..df607d4 100644
--- a/src/viriatum/handlers/handler_proxy.h
+++ b/src/viriatum/handlers/handler_proxy.h
@@ -33,6 +33,12 @@
 
 struct io_connection_t;
 
+/**
+ * The maximum number of bytes for the head (status line
+ * and headers) of the response from a backend server.
+ */
+#define VIRIATUM_MAX_HEAD_SIZE 65536
+
 /**
  * Structure describing the internal parameters
  * for a location in the proxy context.
@@ -203,6 +209,24 @@ typedef struct handler_proxy_context_t {
      * the continuous growth of them.
      */
     size_t pending_write;
+
+    /**
+     * Buffer with the initial part of the response from the backend server
+     * (status line and headers), the parser requires it to be in contiguous
+     * memory. Once it's completely processed the buffer is unset.
+     */
+    char *head_buffer;
+
+    /**
+     * The number of bytes currently stored in the head buffer.
+     */
+    size_t head_size;
+
+    /**
+     * If the initial part (head) of the response from the backend server
+     * has already been sent to the parser.
+     */
+    char head;
 } handler_proxy_context;
 
 ERROR_CODE create_proxy_handler(struct proxy_handler_t **proxy_handler_pointer, struct http_handler_t *http_handler);
-- 
2.43.0


From 586bfaaf4dfe1622b1691bdada5e93b3aa876a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:26 +0000
Subject: [PATCH 052/110] fix: extensions longer than the buffer have no mime
 type

---
 src/viriatum/system/service.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index f355764..8e24752 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -2302,6 +2302,7 @@ const char *_get_mime_type_service(struct service_t *service, char *extension) {
     char extension_l[VIRIATUM_MAX_EXTENSION_SIZE];
     size_t extension_s = strlen(extension);
     struct service_options_t *service_options = service->options;
+    if(extension_s >= VIRIATUM_MAX_EXTENSION_SIZE) { return NULL; }
     memcpy(extension_l, extension, extension_s);
     extension_l[extension_s] = '\0';
     lowercase(extension_l);
-- 
2.43.0


From 0005952bd2baf5a6d3beb784682c277484ad3ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:26 +0000
Subject: [PATCH 053/110] fix: connection closed when the contents of a file
 are not available

---
 src/viriatum/handlers/handler_file.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index dfb0fd2..f8a4f03 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -1268,6 +1268,14 @@ ERROR_CODE _send_chunk_handler_file(struct connection_t *connection, struct data
         that the proper encoding is set for the path */
         open_file((char *) file_path, "rb", &file);
 
+        /* in case it was not possible to open the file the response may
+        not be completed and so the connection must be closed */
+        if(file == NULL) {
+            handler_file_context->flags = 0;
+            _cleanup_handler_file(connection, data, parameters);
+            RAISE_NO_ERROR;
+        }
+
         /* seeks to the end of the file and then to the
         beginig in order to correctly retrieve the size
         of the current file for reading */
@@ -1316,6 +1324,10 @@ ERROR_CODE _send_chunk_handler_file(struct connection_t *connection, struct data
         /* unsets the file from the handler file context */
         handler_file_context->file = NULL;
 
+        /* in case there are bytes missing (file was changed) the response
+        is not complete and so the connection may not be kept alive */
+        if(remaining > 0) { handler_file_context->flags = 0; }
+
         /* runs the cleanup handler file (releases internal structures) */
         _cleanup_handler_file(connection, data, parameters);
 
-- 
2.43.0


From d3fd88a1f8114bdcb07bffd8f338ceaea179e932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:28 +0000
Subject: [PATCH 054/110] fix: rc4 permutation holds all of its values

---
 src/viriatum_commons/crypto/rc4.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum_commons/crypto/rc4.h b/src/viriatum_commons/crypto/rc4.h
index 1a74dec..bb39ee1 100644
--- a/src/viriatum_commons/crypto/rc4.h
+++ b/src/viriatum_commons/crypto/rc4.h
@@ -31,7 +31,7 @@ typedef struct rc4_t {
     char *key;
     unsigned char x;
     unsigned char y;
-    unsigned char box[255];
+    unsigned char box[256];
 } rc4;
 
 VIRIATUM_EXPORT_PREFIX void create_rc4(char *key, struct rc4_t **rc4_pointer);
-- 
2.43.0


From dc2fba9ea41edbe81fce1ae4290932d14e1475c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:28 +0000
Subject: [PATCH 055/110] fix: percent escapes without hexadecimal digits are
 rejected

---
 src/viriatum_commons/encoding/percent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum_commons/encoding/percent.c b/src/viriatum_commons/encoding/percent.c
index 0d16f10..527dedd 100644
--- a/src/viriatum_commons/encoding/percent.c
+++ b/src/viriatum_commons/encoding/percent.c
@@ -99,7 +99,7 @@ ERROR_CODE decode_percent(unsigned char *buffer, size_t length, unsigned char *_
         /* in case the current pointer value refers a value
         that is the start character for a special value */
         if(*pointer == '%') {
-            if((size_t) (pointer - buffer) + 2 < length && pointer[1] && pointer[2]) {
+            if((size_t) (pointer - buffer) + 2 < length && isxdigit(pointer[1]) && isxdigit(pointer[2])) {
                 /* converts the character using the hexadecimal value
                 from it and then increments the current buffer pointer
                 by a value of two (buffer advancing) */
-- 
2.43.0


From 04d29da046edd926d90e52474bb05affb25a9662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:28 +0000
Subject: [PATCH 056/110] fix: formatted time deltas do not exceed their buffer

---
 src/viriatum_commons/util/string_util.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/viriatum_commons/util/string_util.h b/src/viriatum_commons/util/string_util.h
index b9217d2..3bf9b01 100644
--- a/src/viriatum_commons/util/string_util.h
+++ b/src/viriatum_commons/util/string_util.h
@@ -306,10 +306,11 @@ static __inline size_t format_delta(char *buffer, size_t size, unsigned long lon
 
         count += SPRINTF(
             &buffer[count],
-            size,
+            size - count,
             format,
             value
         );
+        if(count >= size) { return size - 1; }
         counter++;
         valid = TRUE;
     }
@@ -326,10 +327,11 @@ static __inline size_t format_delta(char *buffer, size_t size, unsigned long lon
 
         count += SPRINTF(
             &buffer[count],
-            size,
+            size - count,
             format,
             value
         );
+        if(count >= size) { return size - 1; }
         counter++;
         valid = TRUE;
     }
@@ -346,10 +348,11 @@ static __inline size_t format_delta(char *buffer, size_t size, unsigned long lon
 
         count += SPRINTF(
             &buffer[count],
-            size,
+            size - count,
             format,
             value
         );
+        if(count >= size) { return size - 1; }
         counter++;
         valid = TRUE;
     }
@@ -367,10 +370,11 @@ static __inline size_t format_delta(char *buffer, size_t size, unsigned long lon
 
         count += SPRINTF(
             &buffer[count],
-            size,
+            size - count,
             format,
             value
         );
+        if(count >= size) { return size - 1; }
         counter++;
         valid = TRUE;
     }
-- 
2.43.0


From 83e2ef1022be8afbc208c66953eeda6b50b54ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:54 +0000
Subject: [PATCH 057/110] fix: bencoding that ends inside of a sequence is
 rejected

---
 src/viriatum_commons/encoding/bencoding.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/viriatum_commons/encoding/bencoding.c b/src/viriatum_commons/encoding/bencoding.c
index 9dd05f8..94108d7 100644
--- a/src/viriatum_commons/encoding/bencoding.c
+++ b/src/viriatum_commons/encoding/bencoding.c
@@ -130,6 +130,10 @@ ERROR_CODE decode_bencoding(unsigned char *encoded_buffer, size_t encoded_buffer
     bencoding_handler = (struct bencoding_handler_t *) bencoding_engine->context;
     *type_pointer = bencoding_handler->top;
 
+    /* a sequence that is still open means that the contents end
+    before the end of the structure (not complete) */
+    if(bencoding_handler->sequence != NULL) { *type_pointer = NULL; }
+
     /* stops the bencoding engine releasing all of its internal
     structures, the top type is still defined */
     _stop_bencoding_engine(bencoding_engine);
@@ -195,6 +199,10 @@ ERROR_CODE decode_bencoding_file(char *file_path, struct type_t **type_pointer)
     bencoding_handler = (struct bencoding_handler_t *) bencoding_engine->context;
     *type_pointer = bencoding_handler->top;
 
+    /* a sequence that is still open means that the contents end
+    before the end of the structure (not complete) */
+    if(bencoding_handler->sequence != NULL) { *type_pointer = NULL; }
+
     /* stops the bencoding engine releasing all of its internal
     structures, the top type is still defined */
     _stop_bencoding_engine(bencoding_engine);
-- 
2.43.0


From 8903f9090ad819dbac2883295c8eeac7a0618234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:54 +0000
Subject: [PATCH 058/110] fix: base 64 characters outside of the alphabet are
 rejected

---
 src/viriatum_commons/encoding/base_64.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/viriatum_commons/encoding/base_64.c b/src/viriatum_commons/encoding/base_64.c
index 2257890..8bd05d6 100644
--- a/src/viriatum_commons/encoding/base_64.c
+++ b/src/viriatum_commons/encoding/base_64.c
@@ -65,6 +65,9 @@ ERROR_CODE decode_base64(
     /* retrieves the padding count from the encoded buffer */
     unsigned int padding_count = _get_padding_count(encoded_buffer, encoded_buffer_length);
 
+    /* allocates space for the index used in the validation */
+    size_t index;
+
     /* in case the buffer is not a sequence of complete groups it's
     not possible to decode it */
     if(encoded_buffer_length % 4 != 0 || padding_count > 2) {
@@ -74,6 +77,16 @@ ERROR_CODE decode_base64(
         );
     }
 
+    /* in case there is a character that is not part of the alphabet
+    (before the padding) it's also not possible to decode the buffer */
+    for(index = 0; index < encoded_buffer_length - padding_count; index++) {
+        if(encoded_buffer[index] == 'A' || _lookup_fast_base64(encoded_buffer[index]) != 0) { continue; }
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem decoding base 64 buffer"
+        );
+    }
+
     /* allocates the decoded buffer according to the pre-defined
     rules and then assigns the decoded buffer length */
     _allocate_decoded_buffer(
-- 
2.43.0


From 190fbaec889863cab876bc101dfde5af97e37e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:04 +0000
Subject: [PATCH 059/110] fix: writing no bytes to a memory stream does not
 extend it

---
 src/viriatum_commons/stream/memory_stream.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/viriatum_commons/stream/memory_stream.c b/src/viriatum_commons/stream/memory_stream.c
index 5b5e3ee..fe7018f 100644
--- a/src/viriatum_commons/stream/memory_stream.c
+++ b/src/viriatum_commons/stream/memory_stream.c
@@ -117,6 +117,10 @@ size_t write_memory_stream(struct stream_t *stream, unsigned char *buffer, size_
         (struct memory_stream_t *) stream->lower;
     size_t required = memory_stream->position + size;
 
+    /* writing no bytes does not change the stream, even when
+    the position is past the end of it */
+    if(size == 0) { return 0; }
+
     if(required > memory_stream->buffer_size) {
         extra = required - memory_stream->buffer_size;
         allocation = extra > SIZE_MEMORY_STREAM ? extra : SIZE_MEMORY_STREAM;
-- 
2.43.0


From 1e3b7e025a6ad2d919076494cb575fabee67e2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:56 +0000
Subject: [PATCH 060/110] fix: template names below a value that is not a map
 have no value

---
 src/viriatum_commons/template/handler.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/viriatum_commons/template/handler.c b/src/viriatum_commons/template/handler.c
index 46df4d0..328f771 100644
--- a/src/viriatum_commons/template/handler.c
+++ b/src/viriatum_commons/template/handler.c
@@ -333,7 +333,7 @@ void get_template_handler(struct template_handler_t *template_handler, unsigned
     unsigned char *context;
 
     /* allocates space for the (type) value */
-    struct type_t *value;
+    struct type_t *value = NULL;
 
     /* retrieves the template global names as thee base value */
     struct hash_map_t *_value = template_handler->names;
@@ -365,12 +365,25 @@ void get_template_handler(struct template_handler_t *template_handler, unsigned
             break;
         }
 
+        /* retrieves the next token, in case there is none the
+        current value is the one referred by the name */
+        name_token = (unsigned char *) STRTOK(NULL, ".", context);
+        if(name_token == NULL) {
+            /* breaks the loop */
+            break;
+        }
+
+        /* in case the current value is not a map there is no value
+        for the remaining part of the name */
+        if(value->type != MAP_TYPE) {
+            /* unsets the value and breaks the loop */
+            value = NULL;
+            break;
+        }
+
         /* updates the (hash map) value reference with the "newly"
         retrieved value */
         _value = value->value.value_map;
-
-        /* retrieves the next token */
-        name_token = (unsigned char *) STRTOK(NULL, ".", context);
     }
 
     /* sets the value pointer with the internal
-- 
2.43.0


From d38e57c10c9919e8031127ca04960511d32a6ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:56 +0000
Subject: [PATCH 061/110] fix: template if tag compares the item of the tag

---
 src/viriatum_commons/template/handler.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/viriatum_commons/template/handler.c b/src/viriatum_commons/template/handler.c
index 328f771..644a04e 100644
--- a/src/viriatum_commons/template/handler.c
+++ b/src/viriatum_commons/template/handler.c
@@ -645,24 +645,37 @@ void _traverse_for_each_buffer(struct template_handler_t *template_handler, stru
 
 void _traverse_if_buffer(struct template_handler_t *template_handler, struct template_node_t *node) {
     /* allocates space for the item, the value and the operator parameters */
-    struct template_parameter_t *item_parameter;
-    struct template_parameter_t *value_parameter;
+    struct template_parameter_t *item_parameter = NULL;
+    struct template_parameter_t *value_parameter = NULL;
     struct template_parameter_t *operator_parameter;
 
     /* allocates space for the value to be retrieved */
     struct type_t *value;
 
+    /* in case the tag has no parameters there is nothing to be compared */
+    if(node->parameters_map == NULL) {
+        /* returns immediately */
+        return;
+    }
+
     /* retrieves both the from and the item parameters from the parameters map */
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "item", (void **) &item_parameter);
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "value", (void **) &value_parameter);
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "operator", (void **) &operator_parameter);
 
+    /* in case the item to be compared or the value are not set in the
+    tag there is no comparison to be done */
+    if(item_parameter == NULL || item_parameter->type != TEMPLATE_PARAMETER_REFERENCE || value_parameter == NULL) {
+        /* returns immediately */
+        return;
+    }
+
     /* tries to retrieve the reference value from the map of names in the
     template handler (dereferencing) */
-    get_template_handler(template_handler, (unsigned char *) "entry.type", &value);
+    get_template_handler(template_handler, item_parameter->reference_value, &value);
 
-    /* in case the value was not found */
-    if(value == NULL) {
+    /* in case the value was not found or is not comparable */
+    if(value == NULL || value->type != INTEGER_TYPE) {
         /* returns immediately */
         return;
     }
-- 
2.43.0


From 6a792bcefe5f0ca4920979099312543097dfc6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:56 +0000
Subject: [PATCH 062/110] fix: template tags without their parameters render
 nothing

---
 src/viriatum_commons/template/handler.c | 39 +++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/viriatum_commons/template/handler.c b/src/viriatum_commons/template/handler.c
index 644a04e..181ced5 100644
--- a/src/viriatum_commons/template/handler.c
+++ b/src/viriatum_commons/template/handler.c
@@ -465,6 +465,13 @@ void traverse_node_buffer(struct template_handler_t *template_handler, struct te
 
         case TEMPLATE_NODE_SINGLE:
         case TEMPLATE_NODE_OPEN:
+            /* in case the tag has no name (no parameters) there is
+            nothing to be done for it */
+            if(node->name == NULL) {
+                /* breaks the switch */
+                break;
+            }
+
             if(strcmp((char *) node->name, "out") == 0) {
                 /* traverses the out node in buffer mode */
                 _traverse_out_buffer(template_handler, node);
@@ -525,16 +532,29 @@ void traverse_nodes_buffer(struct template_handler_t *template_handler, struct t
 void _traverse_out_buffer(struct template_handler_t *template_handler, struct template_node_t *node) {
     /* allocates space for the value parameter and for
     the value reference */
-    struct template_parameter_t *value_parameter;
+    struct template_parameter_t *value_parameter = NULL;
     struct type_t *value;
 
     /* allocates the buffer to hold the string conversion
     from the source data type of a possible reference */
     unsigned char *buffer;
 
+    /* in case the tag has no parameters there is nothing to be
+    written to the string buffer */
+    if(node->parameters_map == NULL) {
+        /* returns immediately */
+        return;
+    }
+
     /* retrieves value parameter from the parameters map */
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "value", (void **) &value_parameter);
 
+    /* in case the value parameter is not set */
+    if(value_parameter == NULL) {
+        /* returns immediately */
+        return;
+    }
+
     /* switches over the value parameter type to
     update the string buffer accordingly */
     switch(value_parameter->type) {
@@ -599,16 +619,29 @@ void _traverse_for_each_buffer(struct template_handler_t *template_handler, stru
     /* allocates space for the current vale temporary variable */
     void *_current_value;
 
+    /* in case the tag has no parameters there is nothing to iterate */
+    if(node->parameters_map == NULL) {
+        /* returns immediately */
+        return;
+    }
+
     /* retrieves both the item and from parameters from the parameters map */
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "item", (void **) &item_parameter);
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "from", (void **) &from_parameter);
 
+    /* in case any of the parameters is not set or is not a reference */
+    if(item_parameter == NULL || item_parameter->type != TEMPLATE_PARAMETER_REFERENCE ||
+        from_parameter == NULL || from_parameter->type != TEMPLATE_PARAMETER_REFERENCE) {
+        /* returns immediately */
+        return;
+    }
+
     /* tries to retrieve the reference value from the map of names in the
     template handler (dereferencing) */
     get_template_handler(template_handler, from_parameter->reference_value, &value);
 
-    /* in case the value was not found */
-    if(value == NULL) {
+    /* in case the value was not found or is not a list */
+    if(value == NULL || value->type != LIST_TYPE) {
         /* returns immediately */
         return;
     }
-- 
2.43.0


From 2148888021c64779ec265863df8c9f9e45445b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:07 +0000
Subject: [PATCH 063/110] fix: templates with unbalanced tags are rendered from
 their root

---
 src/viriatum_commons/template/handler.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/viriatum_commons/template/handler.c b/src/viriatum_commons/template/handler.c
index 181ced5..6e36809 100644
--- a/src/viriatum_commons/template/handler.c
+++ b/src/viriatum_commons/template/handler.c
@@ -253,7 +253,7 @@ void process_template_handler(struct template_handler_t *template_handler, unsig
     /* processes the file as a template engine and then uses the
     created node structure to traverse for string buffer output */
     process_template_engine(template_engine, template_settings, file_path);
-    traverse_node_buffer(template_handler, template_handler->current_node);
+    traverse_node_buffer(template_handler, root_node);
 
     /* "joins" the template handler string buffer into the string
     value, retrieving the final template result */
@@ -745,6 +745,13 @@ ERROR_CODE _open_context_template_handler(struct template_handler_t *template_ha
 }
 
 ERROR_CODE _close_context_template_handler(struct template_handler_t *template_handler) {
+    /* in case there is no open context to be closed the
+    tag is ignored (unbalanced template) */
+    if(template_handler->contexts == NULL || template_handler->contexts->size == 0) {
+        /* raises no error */
+        RAISE_NO_ERROR;
+    }
+
     /* pops the last context into the template handler current node */
     pop_top_value_linked_list(template_handler->contexts, (void **) &template_handler->current_node, 1);
 
-- 
2.43.0


From 82b27b85fca5b5e3a346f862f2019372a6e7c7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:23 +0000
Subject: [PATCH 064/110] fix: template parameters are kept inside their
 buffers

---
 src/viriatum_commons/template/handler.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/viriatum_commons/template/handler.c b/src/viriatum_commons/template/handler.c
index 6e36809..a59eb3a 100644
--- a/src/viriatum_commons/template/handler.c
+++ b/src/viriatum_commons/template/handler.c
@@ -698,7 +698,8 @@ void _traverse_if_buffer(struct template_handler_t *template_handler, struct tem
 
     /* in case the item to be compared or the value are not set in the
     tag there is no comparison to be done */
-    if(item_parameter == NULL || item_parameter->type != TEMPLATE_PARAMETER_REFERENCE || value_parameter == NULL) {
+    if(item_parameter == NULL || item_parameter->type != TEMPLATE_PARAMETER_REFERENCE ||
+        value_parameter == NULL || value_parameter->type != TEMPLATE_PARAMETER_INTEGER) {
         /* returns immediately */
         return;
     }
@@ -950,6 +951,12 @@ ERROR_CODE _parameter_callback(struct template_engine_t *template_engine, const
     temporary_node->temporary_parameter = template_parameter;
     append_value_linked_list(temporary_node->parameters, template_parameter);
 
+    /* in case the name does not fit in the parameter it's truncated,
+    there is no known parameter with such a name */
+    if(size >= sizeof(template_parameter->name)) {
+        size = sizeof(template_parameter->name) - 1;
+    }
+
     /* sets the name in the template parameter throught a memory copy */
     memcpy(template_parameter->name, pointer, size);
     template_parameter->name[size] = '\0';
@@ -969,6 +976,13 @@ ERROR_CODE _parameter_value_callback(struct template_engine_t *template_engine,
     struct template_node_t *temporary_node = template_handler->temporary_node;
     struct template_parameter_t *temporary_parameter = temporary_node->temporary_parameter;
 
+    /* in case the value does not fit in the parameter the parameter
+    is left without a value */
+    if(size >= sizeof(temporary_parameter->raw_value) || (size >= sizeof(temporary_parameter->reference_value) && pointer[0] != '"')) {
+        /* raise no error */
+        RAISE_NO_ERROR;
+    }
+
     /* sets the raw value in the template parameter throught a memory copy */
     memcpy(temporary_parameter->raw_value, pointer, size);
     temporary_parameter->raw_value[size] = '\0';
-- 
2.43.0


From bd47cbcab901dbbcd301a5e8deab1aeb7d36c158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:12 +0000
Subject: [PATCH 065/110] fix: empty value at the end of an ini file does not
 read past it

---
 src/viriatum_commons/util/string_util.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/viriatum_commons/util/string_util.h b/src/viriatum_commons/util/string_util.h
index 3bf9b01..a21990b 100644
--- a/src/viriatum_commons/util/string_util.h
+++ b/src/viriatum_commons/util/string_util.h
@@ -199,6 +199,8 @@ static __inline size_t trailing_size(char *buffer, size_t size) {
     char byte;
     char *_pointer = buffer + size - 1;
 
+    if(size == 0) { return 0; }
+
     while(TRUE) {
         byte = *_pointer;
         if(byte != ' ') { break; }
@@ -215,6 +217,8 @@ static __inline size_t leading_offset(char *buffer, size_t size) {
     size_t _size = 0;
     char *_pointer = buffer;
 
+    if(size == 0) { return 0; }
+
     while(TRUE) {
         byte = *_pointer;
         if(byte != ' ') { break; }
-- 
2.43.0


From e65d58b5079d4fc017a035eaae02ed0cf408ba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:12 +0000
Subject: [PATCH 066/110] fix: write time of a missing file is an error

---
 src/viriatum_commons/io/file.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/viriatum_commons/io/file.c b/src/viriatum_commons/io/file.c
index 42c6e09..94598a8 100644
--- a/src/viriatum_commons/io/file.c
+++ b/src/viriatum_commons/io/file.c
@@ -744,7 +744,14 @@ ERROR_CODE get_write_time_file(char *file_path, struct date_time_t *date_time) {
     struct stat file_stat;
     struct tm time;
 
-    stat(file_path, &file_stat);
+    /* in case the status of the file could not be retrieved
+    there is no write time to be used */
+    if(stat(file_path, &file_stat) != 0) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem retrieving file time"
+        );
+    }
 
     gmtime_r((const time_t *) &file_stat.st_mtime, &time);
 
-- 
2.43.0


From ab3ed647bcb9c160f4bd76fe4a9e678faece86a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:12 +0000
Subject: [PATCH 067/110] fix: parameters do not fit an empty buffer

---
 src/viriatum/http/http_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index 1085b96..cb4028f 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -936,7 +936,7 @@ ERROR_CODE parameters_http_c(char *buffer, size_t size, size_t count, ...) {
     /* in case the amount of bytes to be copied from the
     dynamically created params buffer to the buffer is
     greater than the size provided raises an error */
-    if(params_size > size - 1) {
+    if(params_size >= size) {
         FREE(params_buffer);
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
-- 
2.43.0


From c9be3d30c29654f0e0318f533eb41d3929f2d8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:59 +0000
Subject: [PATCH 068/110] fix: number of workers is zero unless configured

---
 src/viriatum/system/service.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 8e24752..fc9e8d5 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -119,6 +119,7 @@ void create_service_options(struct service_options_t **service_options_pointer)
     service_options->ssl_key = NULL;
     service_options->handler_name = NULL;
     service_options->local = 0;
+    service_options->workers = 0;
     service_options->default_index = 0;
     service_options->use_template = 0;
     service_options->default_virtual_host = NULL;
-- 
2.43.0


From d92529c307fa7a5c293faf226cc416a3134e1d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:12 +0000
Subject: [PATCH 069/110] fix: entity tags that only start with the one of the
 file do not match

---
 src/viriatum/handlers/handler_file.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index f8a4f03..f522023 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -422,11 +422,9 @@ ERROR_CODE header_value_callback_handler_file(struct http_parser_t *http_parser,
     to undefined no parsing will exist */
     switch(handler_file_context->next_header) {
         case ETAG:
-            /* only the initial part of the value is required for the
-            comparison with the (fixed size) etag values */
-            if(data_size >= sizeof(handler_file_context->etag)) {
-                data_size = sizeof(handler_file_context->etag) - 1;
-            }
+            /* a value larger than the (fixed size) etag values is not
+            able to match any of them */
+            if(data_size >= sizeof(handler_file_context->etag)) { break; }
             memcpy(handler_file_context->etag, data, data_size);
             handler_file_context->etag[data_size] = '\0';
             handler_file_context->etag_status = 2;
-- 
2.43.0


From cf7faa601fa1e3180706a3a67145dc3c37ac839a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:06 +0000
Subject: [PATCH 070/110] fix: header names of the requests for files are case
 insensitive

---
 src/viriatum/handlers/handler_file.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index f522023..6d56538 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -359,6 +359,18 @@ ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const un
     RAISE_NO_ERROR;
 }
 
+static char _is_header_handler_file(const unsigned char *data, size_t data_size, const char *name) {
+    size_t index;
+
+    /* the names of the headers are case insensitive, so both
+    of the bytes are compared in their lower case versions */
+    for(index = 0; index < data_size; index++) {
+        if(tolower(data[index]) != tolower((unsigned char) name[index])) { return FALSE; }
+    }
+
+    return name[data_size] == '\0';
+}
+
 ERROR_CODE header_field_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     /* retrieves the handler file context from the HTTP parser */
     struct handler_file_context_t *handler_file_context = (struct handler_file_context_t *) http_parser->context;
@@ -367,7 +379,7 @@ ERROR_CODE header_field_callback_handler_file(struct http_parser_t *http_parser,
     that was provided (used for faster parsing) */
     switch(data_size) {
         case 5:
-            if(data[0] == 'R' && data[1] == 'a' && data[2] == 'n' && data[3] == 'g') {
+            if(_is_header_handler_file(data, data_size, "Range")) {
                 /* updates the range status value, it's the next
                 value to be parsed and put in context */
                 handler_file_context->range_status = 1;
@@ -380,7 +392,7 @@ ERROR_CODE header_field_callback_handler_file(struct http_parser_t *http_parser,
             break;
 
         case 13:
-            if(data[0] == 'I' && data[1] == 'f' && data[2] == '-' && data[3] == 'N') {
+            if(_is_header_handler_file(data, data_size, "If-None-Match")) {
                 /* updates the etag status value, it's the next
                 value to be parsed and put in context */
                 handler_file_context->etag_status = 1;
@@ -388,7 +400,7 @@ ERROR_CODE header_field_callback_handler_file(struct http_parser_t *http_parser,
                 break;
             }
 
-            if(data[0] == 'C' && data[1] == 'a' && data[2] == 'c' && data[3] == 'h') {
+            if(_is_header_handler_file(data, data_size, "Cache-Control")) {
                 /* updates the cache control status value, it's the next
                 value to be parsed and put in context */
                 handler_file_context->cache_control_status = 1;
@@ -396,7 +408,7 @@ ERROR_CODE header_field_callback_handler_file(struct http_parser_t *http_parser,
                 break;
             }
 
-            if(data[0] == 'A' && data[1] == 'u' && data[2] == 't' && data[3] == 'h') {
+            if(_is_header_handler_file(data, data_size, "Authorization")) {
                 /* updates the authorization status value, it's the next
                 value to be parsed and put in context */
                 handler_file_context->authorization_status = 1;
-- 
2.43.0


From 6a4e71b535b1b68dfffcb554a64f677778215687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:05 +0000
Subject: [PATCH 071/110] fix: missing files of protected locations are not
 disclosed

---
 src/viriatum/handlers/handler_file.c | 47 +++++++++++++++-------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index 6d56538..ebca0c2 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -736,9 +736,33 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     /* sets the (HTTP) flags in the handler file context */
     handler_file_context->flags = http_parser->flags;
 
+    /* tests if the request is authorized before anything else, so
+    that no information on the file is disclosed otherwise */
+    if(!auth_result) {
+        /* prints some debug information about the problem in
+        the authentication of the request */
+        V_DEBUG("Request not authorized\n");
+
+        /* sends the message containing the error definition for
+        the authorization failed operation, note that the realm
+        is also passed as an argument (required for extra header) */
+        write_http_error_a(
+            connection,
+            headers_buffer,
+            VIRIATUM_HTTP_SIZE,
+            HTTP11,
+            401,
+            "Unauthorized",
+            "Invalid password or user not found",
+            (char *) handler_file_context->auth_basic,
+            keep_alive ? KEEP_ALIVE : KEEP_CLOSE,
+            _cleanup_handler_file,
+            handler_file_context
+        );
+    }
     /* tests the error code for error, in case there's an error
     the file is considered to be not found (normal error) */
-    if(IS_ERROR_CODE(error_code)) {
+    else if(IS_ERROR_CODE(error_code)) {
         /* prints the information about the current error */
         V_DEBUG_F("%s\n", get_last_error_message_safe());
 
@@ -762,27 +786,6 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
             _cleanup_handler_file,
             handler_file_context
         );
-    } else if(!auth_result) {
-        /* prints some debug information about the problem in
-        the authentication of the request */
-        V_DEBUG("Request not authorized\n");
-
-        /* sends the message containing the error definition for
-        the authorization failed operation, note that the realm
-        is also passed as an argument (required for extra header) */
-        write_http_error_a(
-            connection,
-            headers_buffer,
-            VIRIATUM_HTTP_SIZE,
-            HTTP11,
-            401,
-            "Unauthorized",
-            "Invalid password or user not found",
-            (char *) handler_file_context->auth_basic,
-            keep_alive ? KEEP_ALIVE : KEEP_CLOSE,
-            _cleanup_handler_file,
-            handler_file_context
-        );
     } else if(is_redirect) {
         /* writes the HTTP static headers to the response */
         count = write_http_headers(
-- 
2.43.0


From 90b75bd2487378a755ba8404865e37c70a3c3562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:38 +0000
Subject: [PATCH 072/110] fix: challenge is sent in the unauthorized responses
 that use no template

---
 src/viriatum/http/http_util.c | 45 +++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index cb4028f..7ec7611 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -262,6 +262,7 @@ ERROR_CODE write_http_error_a(
 ) {
     /* allocates space for the result buffer related
     variables (for both the buffer pointer and size) */
+    size_t count;
     size_t result_length;
     unsigned char *result_buffer;
 
@@ -397,19 +398,37 @@ ERROR_CODE write_http_error_a(
         );
 
         /* writes the HTTP static headers to the response and
-        then writes the error description itself */
-        write_http_headers_m(
-            connection,
-            headers_buffer,
-            size,
-            version,
-            error_code,
-            error_message,
-            keep_alive,
-            strlen(_error_description),
-            NO_CACHE,
-            _error_description
-        );
+        then writes the error description itself, in case the realm
+        is defined the authentication challenge is also written */
+        if(realm == NULL) {
+            write_http_headers_m(
+                connection,
+                headers_buffer,
+                size,
+                version,
+                error_code,
+                error_message,
+                keep_alive,
+                strlen(_error_description),
+                NO_CACHE,
+                _error_description
+            );
+        } else {
+            count = write_http_headers_a(
+                connection,
+                headers_buffer,
+                size,
+                version,
+                error_code,
+                error_message,
+                keep_alive,
+                strlen(_error_description),
+                NO_CACHE,
+                realm,
+                TRUE
+            );
+            memcpy(&headers_buffer[count], _error_description, strlen(_error_description) + 1);
+        }
 
         /* writes both the headers to the connection, an then
         registers for the appropriate callbacks */
-- 
2.43.0


From a293deed79677907a3bd0905d28e59f3d472523e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:12 +0000
Subject: [PATCH 073/110] fix: files are resolved inside of the base path of
 their location

---
 src/viriatum/handlers/handler_file.c | 122 ++++++++-------------------
 src/viriatum/handlers/handler_file.h |   8 +-
 2 files changed, 37 insertions(+), 93 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index ebca0c2..55f1417 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -252,11 +252,16 @@ ERROR_CODE message_begin_callback_handler_file(struct http_parser_t *http_parser
     RAISE_NO_ERROR;
 }
 
-ERROR_CODE _decode_path_handler_file(struct handler_file_context_t *handler_file_context, size_t file_path_size, unsigned char *url) {
-    /* allocates space for the return value and for the size
-    of the decoded values */
+ERROR_CODE _decode_path_handler_file(struct handler_file_context_t *handler_file_context, unsigned char *base_path, unsigned char *url) {
+    /* allocates space for the return value, for the size
+    of the decoded url and for the size of the file path */
     ERROR_CODE return_value;
     size_t decoded_size;
+    size_t file_path_size;
+
+    /* allocates space for the separator to be used between
+    the base path and the decoded url */
+    char *separator;
 
     /* allocates space for the decoded url and for the values
     used in the iteration over its segments */
@@ -264,27 +269,18 @@ ERROR_CODE _decode_path_handler_file(struct handler_file_context_t *handler_file
     unsigned char *segment;
     size_t segment_size;
 
-    /* in case the url is not an absolute path or the file path does
-    not fit its buffer there's no file for it, otherwise decodes the
-    complete file path */
+    /* in case the url is not an absolute path there's no file
+    for it, otherwise decodes the url part of the file path */
     if(handler_file_context->url[0] != '/') { goto error; }
-    if(file_path_size >= VIRIATUM_MAX_PATH_SIZE) { goto error; }
-    return_value = decode_percent(
-        handler_file_context->file_path,
-        file_path_size,
-        handler_file_context->file_path_d,
-        &decoded_size
-    );
+    return_value = decode_percent(url, strlen((char *) url), decoded, &decoded_size);
     if(IS_ERROR_CODE(return_value)) { goto error; }
 
-    /* a file path that contains a string terminator is not the
-    path to any file, would be handled as a different path */
-    if(strlen((char *) handler_file_context->file_path_d) != decoded_size) { goto error; }
+    /* an url that contains a string terminator is not the path
+    to any file, would be handled as a different path */
+    if(strlen((char *) decoded) != decoded_size) { goto error; }
 
-    /* decodes the url part of the file path and verifies that none
-    of its segments is able to leave the base directory */
-    return_value = decode_percent(url, strlen((char *) url), decoded, &decoded_size);
-    if(IS_ERROR_CODE(return_value)) { goto error; }
+    /* verifies that none of the segments of the decoded url
+    is able to leave the base directory */
     segment = decoded;
     while(TRUE) {
         segment_size = strcspn((char *) segment, "/");
@@ -293,6 +289,21 @@ ERROR_CODE _decode_path_handler_file(struct handler_file_context_t *handler_file
         segment += segment_size + 1;
     }
 
+    /* creates the file path, note that the url must be placed inside
+    of the base path and never be an extension of its name, in case the
+    file path does not fit its buffer there's no file for it */
+    separator = decoded_size > 0 && decoded[0] != '/' ? "/" : "";
+    file_path_size = SPRINTF(
+        (char *) handler_file_context->file_path_d,
+        VIRIATUM_MAX_PATH_SIZE,
+        "%s%s%s%s",
+        base_path == NULL ? VIRIATUM_CONTENTS_PATH : (char *) base_path,
+        base_path == NULL ? VIRIATUM_BASE_PATH : "",
+        separator,
+        decoded
+    );
+    if(file_path_size >= VIRIATUM_MAX_PATH_SIZE) { goto error; }
+
     /* raise no error */
     RAISE_NO_ERROR;
 
@@ -310,10 +321,6 @@ ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const un
     size of the decoded file path */
     size_t decoded_size;
 
-    /* the complete size of the string that contains the file
-    path "calculated" from the url */
-    size_t file_path_size;
-
     /* retrieves the handler file context from the HTTP parser */
     struct handler_file_context_t *handler_file_context =\
         (struct handler_file_context_t *) http_parser->context;
@@ -333,17 +340,6 @@ ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const un
     /* prints a debug message */
     V_INFO_F("%s %s\n", get_http_method_string(http_parser->method), handler_file_context->url);
 
-    /* creates the file path using the base viriatum path
-    this should be the complete absolute path */
-    file_path_size = SPRINTF(
-        (char *) handler_file_context->file_path,
-        VIRIATUM_MAX_PATH_SIZE,
-        "%s%s%s",
-        VIRIATUM_CONTENTS_PATH,
-        VIRIATUM_BASE_PATH,
-        handler_file_context->url
-    );
-
     /* decodes the url and file path for the percent encoding, this method
     uses constant (pre-allocated) memory for fast performance the resulting
     value is stored as a simple string in utf-8 encoding */
@@ -353,7 +349,7 @@ ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const un
         handler_file_context->url_d,
         &decoded_size
     );
-    _decode_path_handler_file(handler_file_context, file_path_size, handler_file_context->url);
+    _decode_path_handler_file(handler_file_context, NULL, handler_file_context->url);
 
     /* raise no error */
     RAISE_NO_ERROR;
@@ -995,10 +991,6 @@ ERROR_CODE path_callback_handler_file(struct http_parser_t *http_parser, const u
     size of the decoded file path */
     size_t decoded_size;
 
-    /* the complete size of the string that contains the file
-    path "calculated" from the url */
-    size_t file_path_size;
-
     /* retrieves the handler file context from the HTTP parser
     and uses it to retrieve the reference to the base path in context */
     struct handler_file_context_t *handler_file_context =\
@@ -1015,34 +1007,6 @@ ERROR_CODE path_callback_handler_file(struct http_parser_t *http_parser, const u
     /* prints a debug message */
     V_INFO_F("%s %s\n", get_http_method_string(http_parser->method), handler_file_context->url);
 
-    /* in case a base path is not defined the contant values
-    for the contents and base path must be used */
-    if(base_path == NULL) {
-        /* creates the file path using the base viriatum path
-        this should be the complete absolute path */
-        file_path_size = SPRINTF(
-            (char *) handler_file_context->file_path,
-            VIRIATUM_MAX_PATH_SIZE,
-            "%s%s%s",
-            VIRIATUM_CONTENTS_PATH,
-            VIRIATUM_BASE_PATH,
-            handler_file_context->url
-        );
-    }
-    /* otherwise the currently set base path is used instead for
-    the resolution of the file path */
-    else {
-        /* creates the file path using the base viriatum path
-        this should be the complete absolute path */
-        file_path_size = SPRINTF(
-            (char *) handler_file_context->file_path,
-            VIRIATUM_MAX_PATH_SIZE,
-            "%s%s",
-            base_path,
-            handler_file_context->url
-        );
-    }
-
     /* decodes the url and file path for the percent encoding, this method
     uses constant (pre-allocated) memory for fast performance the resulting
     value is stored as a simple string in utf-8 encoding */
@@ -1052,17 +1016,13 @@ ERROR_CODE path_callback_handler_file(struct http_parser_t *http_parser, const u
         handler_file_context->url_d,
         &decoded_size
     );
-    _decode_path_handler_file(handler_file_context, file_path_size, handler_file_context->url);
+    _decode_path_handler_file(handler_file_context, base_path, handler_file_context->url);
 
     /* raise no error */
     RAISE_NO_ERROR;
 }
 
 ERROR_CODE location_callback_handler_file(struct http_parser_t *http_parser, size_t index, size_t offset) {
-    /* the complete size of the string that contains the file
-    path "calculated" from the url */
-    size_t file_path_size;
-
     /* allocates space for the partial url, resulting from the
     remaining part from the matching of the location */
     unsigned char *partial_url;
@@ -1100,20 +1060,10 @@ ERROR_CODE location_callback_handler_file(struct http_parser_t *http_parser, siz
     of the url in context */
     partial_url = &handler_file_context->url[offset];
 
-    /* creates the file path using the base viriatum path
-    this should be the complete absolute path, note that
+    /* creates the (decoded) file path using the base path of the
+    location, this should be the complete absolute path, note that
     only the partial url is used (offset from location) */
-    file_path_size = SPRINTF(
-        (char *) handler_file_context->file_path,
-        VIRIATUM_MAX_PATH_SIZE,
-        "%s%s",
-        location->base_path,
-        partial_url
-    );
-
-    /* decodes the file path for the percent encoding, this method
-    uses constant (pre-allocated) memory for fast performance */
-    _decode_path_handler_file(handler_file_context, file_path_size, partial_url);
+    _decode_path_handler_file(handler_file_context, location->base_path, partial_url);
 
     /* raise no error */
     RAISE_NO_ERROR;
diff --git a/src/viriatum/handlers/handler_file.h b/src/viriatum/handlers/handler_file.h
index 5fe550b..ee2f541 100644
--- a/src/viriatum/handlers/handler_file.h
+++ b/src/viriatum/handlers/handler_file.h
@@ -111,12 +111,6 @@ typedef struct handler_file_context_t {
      */
     unsigned char url_d[VIRIATUM_MAX_URL_SIZE];
 
-    /**
-     * The path to the file to be handled by
-     * the current file request.
-     */
-    unsigned char file_path[VIRIATUM_MAX_PATH_SIZE];
-
     /**
      * The url (percent) decoded version of the path
      * to the file to be handled by the current request.
@@ -262,7 +256,7 @@ ERROR_CODE set_handler_file(struct http_connection_t *http_connection);
 ERROR_CODE unset_handler_file(struct http_connection_t *http_connection);
 ERROR_CODE reset_handler_file(struct http_connection_t *http_connection);
 ERROR_CODE message_begin_callback_handler_file(struct http_parser_t *http_parser);
-ERROR_CODE _decode_path_handler_file(struct handler_file_context_t *handler_file_context, size_t file_path_size, unsigned char *url);
+ERROR_CODE _decode_path_handler_file(struct handler_file_context_t *handler_file_context, unsigned char *base_path, unsigned char *url);
 ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size);
 ERROR_CODE header_field_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size);
 ERROR_CODE header_value_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size);
-- 
2.43.0


From 41714a7b6ccc2c56f66528e73c4b8edce6120e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:58 +0000
Subject: [PATCH 074/110] fix: index files are searched in the base path of the
 location

---
 src/viriatum/handlers/handler_dispatch.c | 50 ++++++++++++++++++++----
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/src/viriatum/handlers/handler_dispatch.c b/src/viriatum/handlers/handler_dispatch.c
index 50e502b..392522e 100644
--- a/src/viriatum/handlers/handler_dispatch.c
+++ b/src/viriatum/handlers/handler_dispatch.c
@@ -184,7 +184,6 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
     size_t index;
     size_t _index;
     size_t match_size;
-    size_t virtual_url_offset;
     int offsets[3] = { 0, 0, 0 };
     char regex_match = 0;
 #endif
@@ -194,6 +193,7 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
     size of the that index file */
     char *index_;
     size_t index_size;
+    size_t virtual_url_offset;
 
     /* allocates space for the name of the handler to be
     used for the dispatching operation (target handler) */
@@ -203,7 +203,8 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
     base path, this is done through static allocation */
     unsigned char path[VIRIATUM_MAX_URL_SIZE];
     unsigned char base_path[VIRIATUM_MAX_URL_SIZE];
-    unsigned char base_path_d[VIRIATUM_MAX_URL_SIZE];
+    unsigned char path_d[VIRIATUM_MAX_URL_SIZE];
+    char *location_path;
     size_t decoded_size;
     ERROR_CODE error_code;
 
@@ -277,12 +278,45 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
         index configuration option */
         if(handler->resolve_index && options->default_index
             && (path_size == 0 || path[path_size - 1] == '/')) {
-            /* creates the base path from the viriatum contents path
-            and the current provided path and then runs the file existence
-            validation process using the index array provided */
-            SPRINTF((char *) base_path, VIRIATUM_MAX_PATH_SIZE, "%s%s", VIRIATUM_CONTENTS_PATH, path);
-            error_code = decode_percent(base_path, strlen((char *) base_path), base_path_d, &decoded_size);
-            index_ = IS_ERROR_CODE(error_code) ? NULL : validate_file((char *) base_path_d, (char *) options->index, 32, 128);
+            /* sets the viriatum contents path as the default directory and
+            the complete path as the part of it that is resolved inside */
+            location_path = NULL;
+            virtual_url_offset = 0;
+
+#ifdef VIRIATUM_PCRE
+            /* in case the matched location defines a base path it's the
+            one used together with the part of the path after the match */
+            if(regex_match) {
+                get_value_string_sort_map(
+                    service->locations.values[index].configuration,
+                    (unsigned char *) "base_path",
+                    (void **) &location_path
+                );
+                if(location_path != NULL) {
+                    virtual_url_offset = match_size > 0 && path[match_size - 1] == '/' ?\
+                        match_size - 1 : match_size;
+                }
+            }
+#endif
+
+            /* creates the base path from the directory and the (decoded)
+            path inside of it and then runs the file existence validation
+            process using the index array provided */
+            error_code = decode_percent(
+                &path[virtual_url_offset],
+                path_size - virtual_url_offset,
+                path_d,
+                &decoded_size
+            );
+            if(IS_ERROR_CODE(error_code)) { path_d[0] = '\0'; }
+            SPRINTF(
+                (char *) base_path,
+                VIRIATUM_MAX_PATH_SIZE,
+                "%s/%s",
+                location_path == NULL ? VIRIATUM_CONTENTS_PATH : location_path,
+                path_d
+            );
+            index_ = IS_ERROR_CODE(error_code) ? NULL : validate_file((char *) base_path, (char *) options->index, 32, 128);
 
             /* in case the index file resolution was successfull
             (a new file was resolved) must match the file path through
-- 
2.43.0


From 7510a9e5cd31f62010f6272854aa1f053850da33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:58 +0000
Subject: [PATCH 075/110] fix: locations that do not fit the service are
 ignored

---
 src/viriatum/system/service.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index fc9e8d5..ff122fd 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -334,6 +334,13 @@ ERROR_CODE calculate_locations_service(struct service_t *service) {
         get_value_string_sort_map(location, (unsigned char *) "handler", (void **) &handler);
         if(handler == NULL) { continue; }
 
+        /* in case there's no more space for locations the remaining ones
+        are not able to be loaded and are ignored */
+        if(service->locations.count == sizeof(service->locations.values) / sizeof(struct location_t)) {
+            V_ERROR("Too many locations in configuration\n");
+            break;
+        }
+
         name = &element->key_string[sizeof("location:") - 1];
 
         _location = &service->locations.values[service->locations.count];
-- 
2.43.0


From 7fd3935b1c28d2faf65c16e2d9ddae38eea8471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:17 +0000
Subject: [PATCH 076/110] fix: the epoll wait does not block while there are
 outstanding operations

---
 src/viriatum/polling/polling_epoll.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index 66245f5..b3119e1 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -473,6 +473,12 @@ ERROR_CODE _poll_polling_epoll(
     structure in order to be able to modify it */
     struct service_t *service = polling_epoll->polling->service;
 
+    /* in case new outstanding operations have been registered while
+    the previous ones were being processed the wait may not block as
+    no event is going to be triggered by them (edge triggering) */
+    unsigned char outstanding = polling_epoll->read_outstanding_size > 0 ||\
+        polling_epoll->write_outstanding_size > 0;
+
     /* prints a debug message (include the poll count) */
     V_DEBUG_F("Entering epoll statement (%lu)\n", polling_epoll->poll_count);
 
@@ -486,14 +492,14 @@ ERROR_CODE _poll_polling_epoll(
         polling_epoll->epoll_fd,
         events,
         VIRIATUM_MAX_EVENTS,
-        VIRIATUM_SELECT_TIMEOUT * 1000
+        outstanding ? 0 : VIRIATUM_SELECT_TIMEOUT * 1000
     );
 #else
     event_count = epoll_wait(
         polling_epoll->epoll_fd,
         events,
         VIRIATUM_MAX_EVENTS,
-        -1
+        outstanding ? 0 : -1
     );
 #endif
 
-- 
2.43.0


From 419e84191db52b043e971e31d6c68c442438dbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:45 +0000
Subject: [PATCH 077/110] fix: trailing headers are not forwarded inside of the
 body by the proxy

---
 src/viriatum/handlers/handler_proxy.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index d86d9c9..5ecaf7e 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -372,6 +372,11 @@ ERROR_CODE url_callback_handler_proxy(struct http_parser_t *http_parser, const u
 ERROR_CODE header_field_callback_handler_proxy(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
+
+    /* the trailing headers (after the chunked body) are not forwarded
+    as the head of the message has already been created */
+    if(http_parser->flags & FLAG_TRAILING) { RAISE_NO_ERROR; }
+
     write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
 
     RAISE_NO_ERROR;
@@ -380,6 +385,11 @@ ERROR_CODE header_field_callback_handler_proxy(struct http_parser_t *http_parser
 ERROR_CODE header_value_callback_handler_proxy(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
+
+    /* the trailing headers (after the chunked body) are not forwarded
+    as the head of the message has already been created */
+    if(http_parser->flags & FLAG_TRAILING) { RAISE_NO_ERROR; }
+
     write_proxy_buffer(handler_proxy_context, ": ", 2);
     write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
     write_proxy_buffer(handler_proxy_context, "\r\n", 2);
@@ -937,6 +947,11 @@ ERROR_CODE line_callback_backend(struct http_parser_t *http_parser) {
 ERROR_CODE header_field_callback_backend(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
+
+    /* the trailing headers (after the chunked body) are not forwarded
+    as the head of the message has already been created */
+    if(http_parser->flags & FLAG_TRAILING) { RAISE_NO_ERROR; }
+
     write_proxy_out_buffer(handler_proxy_context, (char *) data, data_size);
     RAISE_NO_ERROR;
 }
@@ -944,6 +959,11 @@ ERROR_CODE header_field_callback_backend(struct http_parser_t *http_parser, cons
 ERROR_CODE header_value_callback_backend(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
+
+    /* the trailing headers (after the chunked body) are not forwarded
+    as the head of the message has already been created */
+    if(http_parser->flags & FLAG_TRAILING) { RAISE_NO_ERROR; }
+
     write_proxy_out_buffer(handler_proxy_context, ": ", 2);
     write_proxy_out_buffer(handler_proxy_context, (char *) data, data_size);
     write_proxy_out_buffer(handler_proxy_context, "\r\n", 2);
-- 
2.43.0


From aa7239185411b3767cf5f7d6b3edd59f3e97f7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:29 +0000
Subject: [PATCH 078/110] fix: the line of a chunked message is notified only
 once

---
 src/viriatum/http/http_parser.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index 68a8f13..4786bd8 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -1702,7 +1702,6 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
 
                 if(http_parser->content_length == 0) {
                     http_parser->flags |= FLAG_TRAILING;
-                    HTTP_CALLBACK(line);
                     state = STATE_HEADER_FIELD_START;
                 } else {
                     state = STATE_CHUNK_DATA;
-- 
2.43.0


From 562634bf495c096cc7347b6d7820e060775eaa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:05 +0000
Subject: [PATCH 079/110] fix: failures of a TLS connection do not affect the
 other connections

---
 src/viriatum/stream/stream_io.c | 2 ++
 src/viriatum/system/service.h   | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index dd05472..0ca77d5 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -178,6 +178,7 @@ ERROR_CODE accept_handler_stream_io(struct connection_t *connection) {
                 /* runs the accept operation in the ssl handle, this is possible to
                 break as this operation involves the handshake operation non blocking
                 sockets may block on this */
+                ERR_clear_error();
                 socket_result = SSL_accept(ssl_handle);
 
                 /* in case the socket result is zero the connection has been closed
@@ -646,6 +647,7 @@ ERROR_CODE handshake_handler_stream_io(struct connection_t *connection) {
     /* runs the accept operation in the ssl handle, this is possible to
     break as this operation involves the handshake operation non blocking
     sockets may block on this */
+    ERR_clear_error();
     result = SSL_accept(connection->ssl_handle);
 
     /* in case the result of the accept operation in the ssl handle is not
diff --git a/src/viriatum/system/service.h b/src/viriatum/system/service.h
index cb8d0b2..9dbd546 100644
--- a/src/viriatum/system/service.h
+++ b/src/viriatum/system/service.h
@@ -42,10 +42,10 @@ struct http_handler_t;
 #ifdef VIRIATUM_SSL
 #define CONNECTION_SEND(connection, buffer, length, flags) connection->ssl_handle == NULL ? \
     SOCKET_SEND(connection->socket_handle, buffer, length, flags) :\
-    SSL_write(connection->ssl_handle, buffer, length)
+    (ERR_clear_error(), SSL_write(connection->ssl_handle, buffer, length))
 #define CONNECTION_RECEIVE(connection, buffer, length, flags) connection->ssl_handle == NULL ? \
     SOCKET_RECEIVE(connection->socket_handle, buffer, length, flags) :\
-    SSL_read(connection->ssl_handle, buffer, length)
+    (ERR_clear_error(), SSL_read(connection->ssl_handle, buffer, length))
 #define CONNECTION_GET_ERROR_CODE(connection, error_code) connection->ssl_handle == NULL ? \
     SOCKET_GET_ERROR_CODE(error_code) :\
     SSL_get_error(connection->ssl_handle, error_code)
-- 
2.43.0


From cb364e504888c391ff1d232c82007083f1365c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:30 +0000
Subject: [PATCH 080/110] fix: content lengths with digits after a space are
 rejected

The spaces inside of the value were skipped, so 'Content-Length: 1 2' was
taken as a body of twelve bytes.
---
 src/viriatum/http/http_parser.c | 10 ++++++++++
 src/viriatum/http/http_parser.h |  1 +
 2 files changed, 11 insertions(+)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index 4786bd8..ffb6c60 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -1381,6 +1381,7 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
 
                     case HEADER_STATE_CONTENT_LENGTH:
                         if(byte == ' ') {
+                            header_state = HEADER_STATE_CONTENT_LENGTH_END;
                             break;
                         }
 
@@ -1400,6 +1401,15 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                         /* breaks the switch */
                         break;
 
+                    case HEADER_STATE_CONTENT_LENGTH_END:
+                        if(byte != ' ') {
+                            /*SET_ERRNO(HPE_INVALID_CONTENT_LENGTH);*/
+                            goto error;
+                        }
+
+                        /* breaks the switch */
+                        break;
+
                     /* Transfer-Encoding: chunked */
                     case HEADER_STATE_MATCHING_TRANSFER_ENCODING_CHUNKED:
                         index++;
diff --git a/src/viriatum/http/http_parser.h b/src/viriatum/http/http_parser.h
index 16f131e..377d071 100644
--- a/src/viriatum/http/http_parser.h
+++ b/src/viriatum/http/http_parser.h
@@ -406,6 +406,7 @@ typedef enum http_header_state_e {
 
     HEADER_STATE_CONNECTION,
     HEADER_STATE_CONTENT_LENGTH,
+    HEADER_STATE_CONTENT_LENGTH_END,
     HEADER_STATE_TRANSFER_ENCODING,
     HEADER_STATE_UPGRADE,
 
-- 
2.43.0


From 5b4712740725f2e833c942ece04ce9d2ddcc3b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:46 +0000
Subject: [PATCH 081/110] fix: limit the stack used by the quicksort to a
 logarithmic depth

---
 src/viriatum_commons/sorting/quicksort.c | 65 +++++++++++++-----------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/src/viriatum_commons/sorting/quicksort.c b/src/viriatum_commons/sorting/quicksort.c
index 31140a6..a7b784b 100644
--- a/src/viriatum_commons/sorting/quicksort.c
+++ b/src/viriatum_commons/sorting/quicksort.c
@@ -35,39 +35,46 @@ void sort_quicksort(void **sequence, size_t beginning, size_t end, comparator cm
     size_t left = beginning + 1;
     size_t right = end;
 
-    /* in case the end reference "overflows"
-    the beginig reference (end of recursion) */
-    if(end <= beginning + 1) {
-        /* returns immediately */
-        return;
-    }
-
-    /* retrieves the pivot element of the sequence */
-    pivot = sequence[beginning];
+    /* iterates while there is more than one element in
+    the range to be sorted (otherwise it's already sorted) */
+    while(end > beginning + 1) {
+        /* retrieves the pivot element of the sequence */
+        pivot = sequence[beginning];
 
-    /* iterates while the right index is greater
-    than the left index */
-    while(left < right) {
-        /* in case the left element is smaller
-        or equal to the pivot (left advance) */
-        if(cmp(sequence[left], pivot) <= 0) {
-            /* increments the left index */
-            left++;
+        /* iterates while the right index is greater
+        than the left index */
+        while(left < right) {
+            /* in case the left element is smaller
+            or equal to the pivot (left advance) */
+            if(cmp(sequence[left], pivot) <= 0) {
+                /* increments the left index */
+                left++;
+            }
+            /* otherwise a swap should be done */
+            else {
+                /* swaps the left value with the right one */
+                _swap_quicksort(&sequence[left], &sequence[--right]);
+            }
         }
-        /* otherwise a swap should be done */
-        else {
-            /* swaps the left value with the right one */
-            _swap_quicksort(&sequence[left], &sequence[--right]);
-        }
-    }
 
-    /* swaps the left value with the beginning value */
-    _swap_quicksort(&sequence[--left], &sequence[beginning]);
+        /* swaps the left value with the beginning value */
+        _swap_quicksort(&sequence[--left], &sequence[beginning]);
 
-    /* runs the quicksort from the begining to the left
-    and from the right to the end (bi-section) */
-    sort_quicksort(sequence, beginning, left, cmp);
-    sort_quicksort(sequence, right, end, cmp);
+        /* runs the quicksort in the smaller of the sections, from
+        the beginning to the left or from the right to the end, and
+        continues with the larger one (limits the stack usage) */
+        if(left - beginning < end - right) {
+            sort_quicksort(sequence, beginning, left, cmp);
+            beginning = right;
+        } else {
+            sort_quicksort(sequence, right, end, cmp);
+            end = left;
+        }
+
+        /* resets the left and right indexes for the new range */
+        left = beginning + 1;
+        right = end;
+    }
 }
 
 void _swap_quicksort(void **first, void **second) {
-- 
2.43.0


From 1d331e9468d42e242edd59039d5369068f951ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:46 +0000
Subject: [PATCH 082/110] fix: passwd parsing releases the map of a missing
 file and repeated passwords

---
 src/viriatum_commons/formats/passwd.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/viriatum_commons/formats/passwd.c b/src/viriatum_commons/formats/passwd.c
index 1e976ab..a2de289 100644
--- a/src/viriatum_commons/formats/passwd.c
+++ b/src/viriatum_commons/formats/passwd.c
@@ -56,6 +56,7 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
     as it's not going to be stored in map */
     char *username;
     char *password;
+    char *previous;
 
     /* creates the "final" hash map that is going to be used to
     associated a username with a password and then allocates the
@@ -67,6 +68,7 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
     provided path an in case an error occurs re-raises it */
     return_value = read_file(file_path, &buffer, &size);
     if(IS_ERROR_CODE(return_value)) {
+        delete_hash_map(passwd);
         RAISE_ERROR_F(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem reading file %s",
@@ -118,6 +120,15 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
                         memcpy(password, mark, length);
                         password[length] = '\0';
                         mark = pointer + 1;
+
+                        /* releases the previous password of the user in case
+                        it's repeated in the file (avoids memory leaks) */
+                        get_value_string_hash_map(
+                            passwd,
+                            (unsigned char *) username,
+                            (void **) &previous
+                        );
+                        if(previous != NULL) { FREE(previous); }
                         set_value_string_hash_map(
                             passwd,
                             (unsigned char *) username,
-- 
2.43.0


From 184ec27eca40773ffff3491688ba3a27bee69869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:33 +0000
Subject: [PATCH 083/110] fix: signals that stop the service are not lost
 before the epoll wait

---
 src/viriatum/polling/polling_epoll.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index b3119e1..185d015 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -459,6 +459,13 @@ ERROR_CODE _poll_polling_epoll(
     int index;
     int event_count;
 
+#ifndef VIRIATUM_EMBED
+    /* allocates space for the sets of signals used to control
+    the ones that may be delivered during the wait */
+    sigset_t signals;
+    sigset_t previous;
+#endif
+
     /* allocates space for the reference to the connection
     to be used in the iteration cycle (temporary object) */
     struct connection_t *connection;
@@ -495,12 +502,23 @@ ERROR_CODE _poll_polling_epoll(
         outstanding ? 0 : VIRIATUM_SELECT_TIMEOUT * 1000
     );
 #else
-    event_count = epoll_wait(
+    /* blocks the signals that stop the service, they are only delivered
+    inside of the wait, otherwise one that would be received between the
+    verification of the status and the wait would be forgotten */
+    sigemptyset(&signals);
+    sigaddset(&signals, SIGHUP);
+    sigaddset(&signals, SIGINT);
+    sigaddset(&signals, SIGQUIT);
+    sigaddset(&signals, SIGTERM);
+    sigprocmask(SIG_BLOCK, &signals, &previous);
+    event_count = epoll_pwait(
         polling_epoll->epoll_fd,
         events,
         VIRIATUM_MAX_EVENTS,
-        outstanding ? 0 : -1
+        outstanding || service->status != STATUS_OPEN ? 0 : -1,
+        &previous
     );
+    sigprocmask(SIG_SETMASK, &previous, NULL);
 #endif
 
     /* prints a debug message */
-- 
2.43.0


From 54c9f65076531112b6aaf10568399c636f2f4b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:22 +0000
Subject: [PATCH 084/110] fix: signals received while the service is destroyed
 do not use it

---
 src/viriatum/viriatum.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/viriatum/viriatum.c b/src/viriatum/viriatum.c
index 2bb5fac..2d95d11 100644
--- a/src/viriatum/viriatum.c
+++ b/src/viriatum/viriatum.c
@@ -93,15 +93,18 @@ ERROR_CODE init_service(char *program_name, struct hash_map_t *arguments) {
 }
 
 ERROR_CODE destroy_service() {
+    /* saves the reference to the service to be deleted */
+    struct service_t *_service = service;
+
     /* prints a debug message about the initial stage
     of the service structures destruction */
     V_DEBUG("Destroying the service structures\n");
 
-    /* deletes the service, disallowing any further
-    access to the service instance, and then sets its
-    reference back to the original (unset sate) */
-    delete_service(service);
+    /* sets the service reference back to the original (unset
+    state) disallowing any further access to the service instance
+    (eg: from a signal handler) and only then deletes it */
     service = NULL;
+    delete_service(_service);
 
     /* prints a debug message about the final stage
     of the service structures destruction */
@@ -173,8 +176,9 @@ ERROR_CODE ran_service() {
     /* allocates the return value */
     ERROR_CODE return_value;
 
-    /* in case the service status is open */
-    if(service->status == STATUS_CLOSED) {
+    /* in case there's no service (already destroyed) or
+    its status is not open there's nothing to be stopped */
+    if(service == NULL || service->status == STATUS_CLOSED) {
         /* prints a debug message */
         V_DEBUG("No service to be stopped\n");
     } else {
-- 
2.43.0


From 645d853f00904d3dc326b35feee7689a141a4a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:28 +0000
Subject: [PATCH 085/110] fix: the epoll polling holds more than 1024 pending
 connections

---
 src/viriatum/polling/polling_epoll.c | 67 ++++++++++++++++++++++++++++
 src/viriatum/polling/polling_epoll.h | 26 ++++++++---
 2 files changed, 88 insertions(+), 5 deletions(-)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index 185d015..68b2043 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -31,6 +31,25 @@
 
 #include "polling_epoll.h"
 
+static void _reserve_epoll(
+    struct connection_t ***connections,
+    size_t *capacity,
+    size_t size
+) {
+    /* in case the current capacity is enough for the requested
+    size there's nothing to be done */
+    if(size <= *capacity) { return; }
+
+    /* grows the buffer of connections so that at least the
+    requested number of items fits in it */
+    if(*capacity == 0) { *capacity = VIRIATUM_MAX_EVENTS; }
+    while(*capacity < size) { *capacity *= 2; }
+    *connections = (struct connection_t **) REALLOC(
+        (void *) *connections,
+        *capacity * sizeof(struct connection_t *)
+    );
+}
+
 void create_polling_epoll(struct polling_epoll_t **polling_epoll_pointer, struct polling_t *polling) {
     /* retrieves the polling epoll size */
     size_t polling_epoll_size = sizeof(struct polling_epoll_t);
@@ -48,6 +67,19 @@ void create_polling_epoll(struct polling_epoll_t **polling_epoll_pointer, struct
     polling_epoll->read_outstanding_size = 0;
     polling_epoll->write_outstanding_size = 0;
 
+    /* starts the buffers that grow according to the number
+    of connections as empty (no space is allocated) */
+    polling_epoll->remove_connections = NULL;
+    polling_epoll->remove_connections_capacity = 0;
+    polling_epoll->read_outstanding = NULL;
+    polling_epoll->read_outstanding_capacity = 0;
+    polling_epoll->write_outstanding = NULL;
+    polling_epoll->write_outstanding_capacity = 0;
+    polling_epoll->_read_outstanding = NULL;
+    polling_epoll->_read_outstanding_capacity = 0;
+    polling_epoll->_write_outstanding = NULL;
+    polling_epoll->_write_outstanding_capacity = 0;
+
     /* resets the polling in the polling epoll */
     polling_epoll->polling = polling;
 
@@ -64,6 +96,13 @@ void delete_polling_epoll(struct polling_epoll_t *polling_epoll) {
     in order to avoid any memory leak problem */
     if(polling_epoll->epoll_fd) { close(polling_epoll->epoll_fd); }
 
+    /* releases the various buffers of connections */
+    if(polling_epoll->remove_connections) { FREE(polling_epoll->remove_connections); }
+    if(polling_epoll->read_outstanding) { FREE(polling_epoll->read_outstanding); }
+    if(polling_epoll->write_outstanding) { FREE(polling_epoll->write_outstanding); }
+    if(polling_epoll->_read_outstanding) { FREE(polling_epoll->_read_outstanding); }
+    if(polling_epoll->_write_outstanding) { FREE(polling_epoll->_write_outstanding); }
+
     /* releases the polling epoll */
     FREE(polling_epoll);
 }
@@ -224,6 +263,11 @@ ERROR_CODE unregister_connection_polling_epoll(
             connection
         );
 
+        _reserve_epoll(
+                &polling_epoll->remove_connections,
+                &polling_epoll->remove_connections_capacity,
+                polling_epoll->remove_connections_size + 1
+        );
         remove_connection(
             polling_epoll->remove_connections,
             &polling_epoll->remove_connections_size,
@@ -349,6 +393,11 @@ ERROR_CODE register_write_polling_epoll(struct polling_t *polling, struct connec
 
     /* sets the connection for the current outstanding position and
     then increments the size of the outstanding connection pending */
+    _reserve_epoll(
+        &polling_epoll->write_outstanding,
+        &polling_epoll->write_outstanding_capacity,
+        polling_epoll->write_outstanding_size + 1
+    );
     polling_epoll->write_outstanding[polling_epoll->write_outstanding_size] = connection;
     polling_epoll->write_outstanding_size++;
 
@@ -373,6 +422,11 @@ ERROR_CODE add_outstanding_polling_epoll(struct polling_t *polling, struct conne
 
     /* sets the connection for the current outstanding position and
     then increments the size of the outstanding connection pending */
+    _reserve_epoll(
+        &polling_epoll->read_outstanding,
+        &polling_epoll->read_outstanding_capacity,
+        polling_epoll->read_outstanding_size + 1
+    );
     polling_epoll->read_outstanding[polling_epoll->read_outstanding_size] = connection;
     polling_epoll->read_outstanding_size++;
 
@@ -390,6 +444,19 @@ ERROR_CODE poll_polling_epoll(struct polling_t *polling) {
     struct polling_epoll_t *polling_epoll =\
         (struct polling_epoll_t *) polling->lower;
 
+    /* makes sure that the auxiliary buffers are able to hold the
+    complete set of outstanding operations */
+    _reserve_epoll(
+        &polling_epoll->_read_outstanding,
+        &polling_epoll->_read_outstanding_capacity,
+        polling_epoll->read_outstanding_size
+    );
+    _reserve_epoll(
+        &polling_epoll->_write_outstanding,
+        &polling_epoll->_write_outstanding_capacity,
+        polling_epoll->write_outstanding_size
+    );
+
     /* triggers the processing of the outstanding connection
     operations (pending operations) that meant to be done before
     the main poll operation blocks the control flow */
diff --git a/src/viriatum/polling/polling_epoll.h b/src/viriatum/polling/polling_epoll.h
index fc51160..f060c59 100644
--- a/src/viriatum/polling/polling_epoll.h
+++ b/src/viriatum/polling/polling_epoll.h
@@ -77,7 +77,7 @@ typedef struct polling_epoll_t {
      * to be house-kept (removed) at the end
      * of the polling cycle.
      */
-    struct connection_t *remove_connections[VIRIATUM_MAX_EVENTS];
+    struct connection_t **remove_connections;
 
     /**
      * The buffer that contains the various
@@ -85,7 +85,7 @@ typedef struct polling_epoll_t {
      * be read from the socket at the begining
      * of the next poll operation.
      */
-    struct connection_t *read_outstanding[VIRIATUM_MAX_EVENTS];
+    struct connection_t **read_outstanding;
 
     /**
      * The buffer that contains the various
@@ -93,19 +93,19 @@ typedef struct polling_epoll_t {
      * be writen to the socket at the begining
      * of the next poll operation.
      */
-    struct connection_t *write_outstanding[VIRIATUM_MAX_EVENTS];
+    struct connection_t **write_outstanding;
 
     /**
      * Auxiliary buffer to be used in the performing
      * of the outstaind read operations.
      */
-    struct connection_t *_read_outstanding[VIRIATUM_MAX_EVENTS];
+    struct connection_t **_read_outstanding;
 
     /**
      * Auxiliary buffer to be used in the performing
      * of the outstaind write operations.
      */
-    struct connection_t *_write_outstanding[VIRIATUM_MAX_EVENTS];
+    struct connection_t **_write_outstanding;
 
     /**
      * The size of the read connections
@@ -144,6 +144,22 @@ typedef struct polling_epoll_t {
      * at he beginning of the poll operation.
      */
     size_t write_outstanding_size;
+
+    /**
+     * The number of items the remove connections
+     * buffer is able to hold at this moment.
+     */
+    size_t remove_connections_capacity;
+
+    /**
+     * The number of items the buffers of the
+     * outstanding operations are able to hold
+     * at this moment (they grow on demand).
+     */
+    size_t read_outstanding_capacity;
+    size_t write_outstanding_capacity;
+    size_t _read_outstanding_capacity;
+    size_t _write_outstanding_capacity;
 } polling_epoll;
 
 void create_polling_epoll(struct polling_epoll_t **polling_epoll_pointer, struct polling_t *polling);
-- 
2.43.0


From 5d1e349940d619fb20beffaf08c9faa2c790103e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:03 +0000
Subject: [PATCH 086/110] fix: the Lua module sends no memory beyond the string
 of the script

---
 .../src/viriatum_mod_lua/module/handler.c     | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/modules/mod_lua/src/viriatum_mod_lua/module/handler.c b/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
index e4a8f4d..7b170b8 100644
--- a/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
+++ b/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
@@ -334,8 +334,11 @@ int _lua_write_connection(lua_State *lua_state) {
     /* allocates the (final) buffer to send the message */
     unsigned char *buffer;
 
-    /* allocates the data size */
+    /* allocates the data size, both the requested one
+    and the one that is available in the string */
     unsigned int data_size;
+    size_t string_size;
+    lua_Integer size;
 
     /* allocates the HTTP parser */
     struct http_parser_t *http_parser;
@@ -384,10 +387,24 @@ int _lua_write_connection(lua_State *lua_state) {
     }
 
     /* converts the third argument into an integer */
-    data_size = lua_tointeger(lua_state, -1);
+    size = lua_tointeger(lua_state, -1);
 
     /* converts the second argument into a string */
-    data = lua_tostring(lua_state, -2);
+    data = lua_tolstring(lua_state, -2, &string_size);
+
+    /* in case the size is outside of the string, there's no
+    data to be sent for it (would read other memory) */
+    if(size < 0 || (size_t) size > string_size) {
+        /* prints a warning message */
+        V_WARNING("Invalid size for string\n");
+
+        /* pushes an error message to Lua */
+        lua_pushstring(lua_state, "Invalid size for string");
+        lua_error(lua_state);
+    }
+
+    /* sets the data size as the (validated) size */
+    data_size = (unsigned int) size;
 
     /* converts the first argument into HTTP parser structure */
     http_parser = (struct http_parser_t *) lua_touserdata(lua_state, -3);
-- 
2.43.0


From 184ecddead3e2799ab54e040d095041f6427ffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:27 +0000
Subject: [PATCH 087/110] fix: the Lua module sends what the script wrote for a
 request as one response

---
 .../src/viriatum_mod_lua/module/handler.c     | 111 ++++++++++++++----
 .../src/viriatum_mod_lua/module/handler.h     |  21 ++++
 2 files changed, 112 insertions(+), 20 deletions(-)

diff --git a/modules/mod_lua/src/viriatum_mod_lua/module/handler.c b/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
index 7b170b8..1be4679 100644
--- a/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
+++ b/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
@@ -41,6 +41,9 @@ ERROR_CODE create_mod_lua_http_handler(struct mod_lua_http_handler_t **mod_lua_h
     mod_lua_http_handler->lua_state = NULL;
     mod_lua_http_handler->file_path = NULL;
     mod_lua_http_handler->file_dirty = 0;
+    mod_lua_http_handler->http_parser = NULL;
+    mod_lua_http_handler->data = NULL;
+    mod_lua_http_handler->data_size = 0;
 
     /* sets the mod Lua HTTP handler in the upper HTTP handler substrate */
     http_handler->lower = (void *) mod_lua_http_handler;
@@ -193,6 +196,10 @@ ERROR_CODE _send_response_handler_lua(struct http_parser_t *http_parser) {
     /* allocates space for the result code */
     ERROR_CODE result_code;
 
+    /* allocates space for the data of the response */
+    unsigned char *data;
+    size_t data_size;
+
     /* acquires the lock on the HTTP connection, this will avoids further
     messages to be processed, no parallel request handling problems */
     http_connection->acquire(http_connection);
@@ -206,12 +213,24 @@ ERROR_CODE _send_response_handler_lua(struct http_parser_t *http_parser) {
         RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem accessing Lua state");
     }
 
+    /* starts the response of the script, the data written by it
+    is kept until the script returns, only then is it sent */
+    mod_lua_http_handler->http_parser = http_parser;
+    mod_lua_http_handler->data = NULL;
+    mod_lua_http_handler->data_size = 0;
+
+    /* removes the values left in the stack by the previous
+    request (error messages and values of the script file) */
+    lua_settop(mod_lua_http_handler->lua_state, 0);
+
     /* registers the current connection in Lua */
     lua_pushlightuserdata(mod_lua_http_handler->lua_state, (void *) http_parser);
     lua_setglobal(mod_lua_http_handler->lua_state, "connection");
 
     /* registers the write connection function in Lua */
-    lua_register(mod_lua_http_handler->lua_state, "write_connection", _lua_write_connection);
+    lua_pushlightuserdata(mod_lua_http_handler->lua_state, (void *) mod_lua_http_handler);
+    lua_pushcclosure(mod_lua_http_handler->lua_state, _lua_write_connection, 1);
+    lua_setglobal(mod_lua_http_handler->lua_state, "write_connection");
 
     /* runs the script in case the current file is considered to be
     dirty, this is the case for the loading of the module and reloading*/
@@ -223,6 +242,7 @@ ERROR_CODE _send_response_handler_lua(struct http_parser_t *http_parser) {
         /* retrieves the error message and then writes it to the connection
         so that the end user may be able to respond to it */
         char *error_message = (char *) lua_tostring(mod_lua_http_handler->lua_state, -1);
+        _discard_response_lua(mod_lua_http_handler);
         _write_error_connection_lua(http_parser, error_message);
 
         /* sets the file as dirty (forces reload) and then reloads the curernt
@@ -246,6 +266,7 @@ ERROR_CODE _send_response_handler_lua(struct http_parser_t *http_parser) {
         /* retrieves the error message and then writes it to the connection
         so that the end user may be able to respond to it */
         char *error_message = (char *) lua_tostring(mod_lua_http_handler->lua_state, -1);
+        _discard_response_lua(mod_lua_http_handler);
         _write_error_connection_lua(http_parser, error_message);
 
         /* sets the file reference as dirty, this will force the script file
@@ -258,6 +279,41 @@ ERROR_CODE _send_response_handler_lua(struct http_parser_t *http_parser) {
         RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem calling the handle method");
     }
 
+    /* in case the script has not written any data there's no response
+    for the request, the client must be notified about it */
+    if(mod_lua_http_handler->data == NULL) {
+        _discard_response_lua(mod_lua_http_handler);
+        _write_error_connection_lua(http_parser, "no response written by the script");
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "No response written by the script");
+    }
+
+    /* retrieves the data written by the script and writes it to the
+    connection, from this point on it's owned by the connection */
+    data = mod_lua_http_handler->data;
+    data_size = mod_lua_http_handler->data_size;
+    mod_lua_http_handler->data = NULL;
+    _discard_response_lua(mod_lua_http_handler);
+    connection->write_connection(
+        connection,
+        data,
+        (unsigned int) data_size,
+        _send_response_callback_handler_lua,
+        (void *) (size_t) http_parser->flags
+    );
+
+    /* raise no error */
+    RAISE_NO_ERROR;
+}
+
+ERROR_CODE _discard_response_lua(struct mod_lua_http_handler_t *mod_lua_http_handler) {
+    /* releases the data written by the script in case there's any
+    and then resets the state of the response, no more data may be
+    written for the current request */
+    if(mod_lua_http_handler->data != NULL) { FREE(mod_lua_http_handler->data); }
+    mod_lua_http_handler->http_parser = NULL;
+    mod_lua_http_handler->data = NULL;
+    mod_lua_http_handler->data_size = 0;
+
     /* raise no error */
     RAISE_NO_ERROR;
 }
@@ -334,18 +390,19 @@ int _lua_write_connection(lua_State *lua_state) {
     /* allocates the (final) buffer to send the message */
     unsigned char *buffer;
 
+    /* retrieves the handler that is running the script */
+    struct mod_lua_http_handler_t *mod_lua_http_handler =
+        (struct mod_lua_http_handler_t *) lua_touserdata(lua_state, lua_upvalueindex(1));
+
     /* allocates the data size, both the requested one
     and the one that is available in the string */
-    unsigned int data_size;
+    size_t data_size;
     size_t string_size;
     lua_Integer size;
 
     /* allocates the HTTP parser */
     struct http_parser_t *http_parser;
 
-    /* allocates the connection */
-    struct connection_t *connection;
-
     /* retrieves the number of (received) arguments */
     unsigned int number_arguments = lua_gettop(lua_state);
 
@@ -404,27 +461,41 @@ int _lua_write_connection(lua_State *lua_state) {
     }
 
     /* sets the data size as the (validated) size */
-    data_size = (unsigned int) size;
+    data_size = (size_t) size;
 
     /* converts the first argument into HTTP parser structure */
     http_parser = (struct http_parser_t *) lua_touserdata(lua_state, -3);
 
-    /* retrieves the connection from the HTTP parser parameters */
-    connection = (struct connection_t *) http_parser->parameters;
+    /* in case the connection is not the one that is being handled
+    (eg: was kept from other request) it may no longer exist, for this
+    situation an error must be raised */
+    if(http_parser == NULL || http_parser != mod_lua_http_handler->http_parser) {
+        /* prints a warning message */
+        V_WARNING("Connection is not being handled\n");
 
-    /* allocates the data buffer (in a safe maner) then
-    copies the data (from Lua) into the buffer */
-    connection->alloc_data(connection, data_size * sizeof(unsigned char), (void **) &buffer);
-    memcpy(buffer, data, data_size);
+        /* pushes an error message to Lua */
+        lua_pushstring(lua_state, "Connection is not being handled");
+        lua_error(lua_state);
+    }
 
-    /* writes the response to the connection */
-    connection->write_connection(
-        connection,
-        buffer,
-        data_size,
-        _send_response_callback_handler_lua,
-        (void *) (size_t) http_parser->flags
-    );
+    /* in case there's no data to be written returns immediately
+    as there's nothing to be added to the response */
+    if(data_size == 0) { return 0; }
+
+    /* grows the buffer of the response so that the new data fits in
+    it, in case that's not possible raises an error */
+    buffer = data_size > UINT_MAX - mod_lua_http_handler->data_size ? NULL : \
+        (unsigned char *) REALLOC(mod_lua_http_handler->data, mod_lua_http_handler->data_size + data_size);
+    if(buffer == NULL) {
+        lua_pushstring(lua_state, "Response is too large");
+        lua_error(lua_state);
+    }
+
+    /* copies the data (from Lua) into the buffer of the response
+    that is sent as soon as the script returns */
+    memcpy(&buffer[mod_lua_http_handler->data_size], data, data_size);
+    mod_lua_http_handler->data = buffer;
+    mod_lua_http_handler->data_size += data_size;
 
     /* return the number of results */
     return 0;
diff --git a/modules/mod_lua/src/viriatum_mod_lua/module/handler.h b/modules/mod_lua/src/viriatum_mod_lua/module/handler.h
index e9b22d6..1911223 100644
--- a/modules/mod_lua/src/viriatum_mod_lua/module/handler.h
+++ b/modules/mod_lua/src/viriatum_mod_lua/module/handler.h
@@ -54,6 +54,26 @@ typedef struct mod_lua_http_handler_t {
      * to be executed is currently dirty.
      */
     unsigned int file_dirty;
+
+    /**
+     * The HTTP parser of the request that is being
+     * handled by the script, only its connection may
+     * be written (unset while no script is running).
+     */
+    struct http_parser_t *http_parser;
+
+    /**
+     * The data written by the script for the
+     * current request, it's sent to the connection
+     * when the script returns.
+     */
+    unsigned char *data;
+
+    /**
+     * The size of the data written by the script
+     * for the current request.
+     */
+    size_t data_size;
 } mod_lua_http_handler;
 
 ERROR_CODE create_mod_lua_http_handler(struct mod_lua_http_handler_t **mod_lua_http_handler_pointer, struct http_handler_t *http_handler_pointer);
@@ -76,5 +96,6 @@ ERROR_CODE _unset_http_settings_handler_lua(struct http_settings_t *http_setting
 ERROR_CODE _message_begin_callback_handler_lua(struct http_parser_t *http_parser);
 ERROR_CODE _send_response_handler_lua(struct http_parser_t *http_parser);
 ERROR_CODE _send_response_callback_handler_lua(struct connection_t *connection, struct data_t *data, void *parameters);
+ERROR_CODE _discard_response_lua(struct mod_lua_http_handler_t *mod_lua_http_handler);
 ERROR_CODE _write_error_connection_lua(struct http_parser_t *http_parser, char *message);
 int _lua_write_connection(lua_State *lua_state);
-- 
2.43.0


From 848014b76ad7de42666d290bd5becab6cbc589d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:47 +0000
Subject: [PATCH 088/110] fix: module files with short names are not read past
 the end of the name

---
 src/viriatum/module/loading.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/viriatum/module/loading.h b/src/viriatum/module/loading.h
index 0f2f035..56f0b03 100644
--- a/src/viriatum/module/loading.h
+++ b/src/viriatum/module/loading.h
@@ -300,6 +300,13 @@ static __inline void module_name(unsigned char *module_path, unsigned char *buff
     size_t index = 0;
     unsigned char *module_name = base_string_value(module_path);
 
+    /* in case the name is too short to hold the "mandatory" viriatum
+    prefix there's no base name (avoids reading past its end) */
+    if(strlen((char *) module_name) < VIRIATUM_MODULE_PREFIX) {
+        buffer[0] = '\0';
+        return;
+    }
+
     /* "removes" the initial part of the module name refering
     to the "mandatory" viriatum suffix */
     module_name = &module_name[VIRIATUM_MODULE_PREFIX];
-- 
2.43.0


From 82493fd8b6364250074dd203506fa491ccfc74a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:27 +0000
Subject: [PATCH 089/110] fix: an IPv6 address that is too long is refused
 instead of written past its buffer

---
 src/viriatum/system/service.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index ff122fd..2c2cc79 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -675,6 +675,16 @@ ERROR_CODE start_service(struct service_t *service) {
 #endif
 
 #ifdef VIRIATUM_PLATFORM_UNIX
+        /* in case the ip6 address does not fit in the temporary buffer
+        it's not possible that it represents a valid address */
+        if(strlen((char *) service_options->address6) >= sizeof(address6)) {
+            V_ERROR("Problem getting ip6 address information\n");
+            RAISE_ERROR_M(
+                RUNTIME_EXCEPTION_ERROR_CODE,
+                (unsigned char *) "Problem getting ip6 address information"
+            );
+        }
+
         /* copies the ip6 address to a temporary buffer and then
         uses the buffer to trim the string remogin the first and
         last chracters from it (ip6 normal representation) */
-- 
2.43.0


From 8277f00a66fb8c2153bcf6efa1b10a235a8e7cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:27 +0000
Subject: [PATCH 090/110] fix: the daemon starts when its pid file cannot be
 written

---
 src/viriatum/viriatum.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/viriatum/viriatum.c b/src/viriatum/viriatum.c
index 2d95d11..6e6b518 100644
--- a/src/viriatum/viriatum.c
+++ b/src/viriatum/viriatum.c
@@ -325,10 +325,12 @@ void daemonize() {
     this will allow external programs to make sure viriatum
     is correctly running */
     FOPEN(&pid_file, VIRIATUM_PID_PATH, "wb");
-    SPRINTF(pid_string, 1024, "%d\n", pid);
-    pid_string_length = strlen(pid_string);
-    fwrite(pid_string, sizeof(char), pid_string_length, pid_file);
-    fclose(pid_file);
+    if(pid_file != NULL) {
+        SPRINTF(pid_string, 1024, "%d\n", pid);
+        pid_string_length = strlen(pid_string);
+        fwrite(pid_string, sizeof(char), pid_string_length, pid_file);
+        fclose(pid_file);
+    }
 
     /* opens the log file and redirects the standard output stream
     into it so that every log message is sent there */
-- 
2.43.0


From eca2165fd7a972897a0a234dcfe7dc9fca079e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:27 +0000
Subject: [PATCH 091/110] fix: an address that is not valid is refused instead
 of listened on

---
 src/viriatum/system/service.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 2c2cc79..1ccb6d8 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -593,6 +593,16 @@ ERROR_CODE start_service(struct service_t *service) {
     socket_address.sin_addr.s_addr = inet_addr((char *) service_options->address);
     socket_address.sin_port = htons(service_options->port);
 
+    /* in case the address is not a valid one it's not possible
+    to listen on it, no client would be able to reach the service */
+    if(socket_address.sin_addr.s_addr == INADDR_NONE) {
+        V_ERROR_F("Problem getting address information: %s\n", service_options->address);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem getting address information"
+        );
+    }
+
     /* creates the service socket for the given types */
     service->service_socket_handle = SOCKET_CREATE(
         SOCKET_INTERNET_TYPE,
-- 
2.43.0


From e089abcd35b827c1b2cefddde39b107e07385ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:38 +0000
Subject: [PATCH 092/110] fix: an unknown handler is refused at the start
 instead of called for the requests

---
 src/viriatum/system/service.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 1ccb6d8..cf82d4a 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -587,6 +587,16 @@ ERROR_CODE start_service(struct service_t *service) {
         (void **) &service->http_handler
     );
 
+    /* in case there's no handler with the configured name it's not
+    possible to handle any of the requests that are received */
+    if(service->http_handler == NULL) {
+        V_ERROR_F("Problem getting handler: %s\n", service_options->handler_name);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem getting handler"
+        );
+    }
+
     /* sets the socket address attributes in the socket address
     structure so that the connection is properly defined */
     socket_address.sin_family = SOCKET_INTERNET_TYPE;
-- 
2.43.0


From 4f623eaff96ac7fdcefd96d16d77685210932b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:38 +0000
Subject: [PATCH 093/110] fix: outstanding operations of a closed connection
 are dropped in the select polling

---
 src/viriatum/polling/polling_select.c | 31 +++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/viriatum/polling/polling_select.c b/src/viriatum/polling/polling_select.c
index 7d4f1d5..44f0935 100644
--- a/src/viriatum/polling/polling_select.c
+++ b/src/viriatum/polling/polling_select.c
@@ -137,6 +137,24 @@ ERROR_CODE register_connection_polling_select(struct polling_t *polling, struct
     RAISE_NO_ERROR;
 }
 
+static void _purge_outstanding_select(
+    struct connection_t **outstanding,
+    size_t *outstanding_size,
+    struct connection_t *connection
+) {
+    size_t index;
+    size_t size = 0;
+
+    /* keeps only the entries of the other connections */
+    for(index = 0; index < *outstanding_size; index++) {
+        if(outstanding[index] == connection) { continue; }
+        outstanding[size] = outstanding[index];
+        size++;
+    }
+
+    *outstanding_size = size;
+}
+
 ERROR_CODE unregister_connection_polling_select(
     struct polling_t *polling,
     struct connection_t *connection,
@@ -178,6 +196,19 @@ ERROR_CODE unregister_connection_polling_select(
     after the io driven logic part is processed (at the end
     of the logic loop) */
     if(remove_c == TRUE) {
+        /* removes the outstanding operations of the connection, it is
+        going to be deleted before they are processed */
+        _purge_outstanding_select(
+            polling_select->read_outstanding,
+            &polling_select->read_outstanding_size,
+            connection
+        );
+        _purge_outstanding_select(
+            polling_select->write_outstanding,
+            &polling_select->write_outstanding_size,
+            connection
+        );
+
         remove_connection(
             polling_select->remove_connections,
             &polling_select->remove_connections_size,
-- 
2.43.0


From 9b60b7591fa8546cb643c4fbc52e333080151fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:07 +0000
Subject: [PATCH 094/110] fix: the select call does not block while there are
 outstanding operations

---
 src/viriatum/polling/polling_select.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/viriatum/polling/polling_select.c b/src/viriatum/polling/polling_select.c
index 44f0935..54fb52e 100644
--- a/src/viriatum/polling/polling_select.c
+++ b/src/viriatum/polling/polling_select.c
@@ -451,6 +451,15 @@ ERROR_CODE _poll_polling_select(
     /* copies the select timeout to the select timeout temporary */
     polling_select->select_timeout_temporary = polling_select->select_timeout;
 
+    /* in case new outstanding operations have been registered while
+    the previous ones were being processed the select may not block,
+    these operations do not depend on any event of the sockets */
+    if(polling_select->read_outstanding_size > 0 ||\
+        polling_select->write_outstanding_size > 0) {
+        polling_select->select_timeout_temporary.tv_sec = 0;
+        polling_select->select_timeout_temporary.tv_usec = 0;
+    }
+
     /* prints a debug message */
     V_DEBUG("Entering select statement\n");
 
-- 
2.43.0


From 67db0dfe78eb5af95c70186d553b38c24d34b7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:30 +0000
Subject: [PATCH 095/110] fix: the select polling takes no descriptors that do
 not fit in its sets

---
 src/viriatum/polling/polling_select.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/viriatum/polling/polling_select.c b/src/viriatum/polling/polling_select.c
index 54fb52e..b47d1e1 100644
--- a/src/viriatum/polling/polling_select.c
+++ b/src/viriatum/polling/polling_select.c
@@ -73,6 +73,18 @@ ERROR_CODE open_polling_select(struct polling_t *polling) {
     /* allocates the polling select */
     struct polling_select_t *polling_select;
 
+#ifdef VIRIATUM_PLATFORM_UNIX
+    /* limits the number of descriptors of the process to the ones
+    that fit in the sets of sockets, the other ones would be written
+    outside of them (no more connections are accepted at the limit) */
+    struct rlimit limit;
+    if(getrlimit(RLIMIT_NOFILE, &limit) == 0 &&\
+        (limit.rlim_cur == RLIM_INFINITY || limit.rlim_cur > FD_SETSIZE)) {
+        limit.rlim_cur = FD_SETSIZE;
+        setrlimit(RLIMIT_NOFILE, &limit);
+    }
+#endif
+
     /* creates the polling select */
     create_polling_select(&polling_select, polling);
 
-- 
2.43.0


From fee51cd4791593d569b8f4563cfe58d847f7935a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:30 +0000
Subject: [PATCH 096/110] fix: the select polling holds one outstanding write
 for each connection

---
 src/viriatum/polling/polling_select.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/viriatum/polling/polling_select.c b/src/viriatum/polling/polling_select.c
index b47d1e1..36e19b6 100644
--- a/src/viriatum/polling/polling_select.c
+++ b/src/viriatum/polling/polling_select.c
@@ -316,6 +316,14 @@ ERROR_CODE register_write_polling_select(struct polling_t *polling, struct conne
         RAISE_NO_ERROR;
     }
 
+    /* removes the previous outstanding operation of the connection, if
+    any, so that there's at most one of them for each connection */
+    _purge_outstanding_select(
+        polling_select->write_outstanding,
+        &polling_select->write_outstanding_size,
+        connection
+    );
+
     /* sets the connection for the current outstanding position and
     then increments the size of the outstanding connection pending */
     polling_select->write_outstanding[polling_select->write_outstanding_size] = connection;
-- 
2.43.0


From cd9b115c901a2073d346c1174216547f9a353f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:39 +0000
Subject: [PATCH 097/110] fix: only the brackets are removed from the IPv6
 address of the service

---
 src/viriatum/system/service.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index cf82d4a..2bcca9c 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -707,9 +707,13 @@ ERROR_CODE start_service(struct service_t *service) {
 
         /* copies the ip6 address to a temporary buffer and then
         uses the buffer to trim the string remogin the first and
-        last chracters from it (ip6 normal representation) */
+        last chracters from it (ip6 normal representation), any other
+        character is part of the address and must not be removed */
         STRCPY((char *) address6, 64, (char *) service_options->address6);
-        _address6 = trim(address6);
+        _address6 = address6;
+        if(address6[0] == '[' && address6[strlen((char *) address6) - 1] == ']') {
+            _address6 = trim(address6);
+        }
 
         /* populates the socket ip6 address with the values provided
         from the configuration of the service */
-- 
2.43.0


From eb53286a4387ab5091df91f72c8770804ba3fb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:08 +0000
Subject: [PATCH 098/110] fix: a memory pool that was released is created again
 by the next allocation

---
 src/viriatum_commons/memory/memory_pool.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/viriatum_commons/memory/memory_pool.h b/src/viriatum_commons/memory/memory_pool.h
index d8ae517..74ee73a 100644
--- a/src/viriatum_commons/memory/memory_pool.h
+++ b/src/viriatum_commons/memory/memory_pool.h
@@ -320,7 +320,10 @@ static __inline void release_memory_pool(struct memory_pool_t *pool) {
     /* resets all of the pool values to their original
     values in order to avoid any duplicated initialization
     problems that might occur */
+    pool->chunks = NULL;
+    pool->buffer_item_map = NULL;
     pool->free = 0;
+    pool->chunk_alloc = 0;
     pool->chunk_count = 0;
     pool->chunk_max_size = 0;
     pool->items_max_size = 0;
-- 
2.43.0


From 74484eb4f61a1336224afcd7059eee4bbdc574fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:53 +0000
Subject: [PATCH 099/110] fix: the memory pool does not allocate an item of a
 full chunk twice

---
 src/viriatum_commons/memory/memory_pool.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/viriatum_commons/memory/memory_pool.h b/src/viriatum_commons/memory/memory_pool.h
index 74ee73a..3cc6304 100644
--- a/src/viriatum_commons/memory/memory_pool.h
+++ b/src/viriatum_commons/memory/memory_pool.h
@@ -618,8 +618,11 @@ static __inline void *palloc(struct memory_pool_t *pool, size_t size) {
     first free chunk found in the chunk sequence */
     if(chunk->free == free) {
         /* sets the full flag in the chunk so that it is
-        correctly identified for any code using the pool */
+        correctly identified for any code using the pool and
+        removes the lowest free item as there's none, so that
+        the next item to be released becomes the free one */
         chunk->is_full = TRUE;
+        chunk->free = CHUNK_SIZE;
 
         /* because the current chunk is full a new one must
         be found in the chunk sequence, the available (if any)
-- 
2.43.0


From 4630dd3dea92c1976247f2e54386ba91b05c1b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:36 +0000
Subject: [PATCH 100/110] fix: the names in a directory listing are encoded

---
 src/viriatum/handlers/handler_file.c          | 12 ++++-
 .../html/base/templates/listing.html.tpl      |  2 +-
 src/viriatum_commons/encoding/percent.c       | 44 +++++++++++++++++++
 src/viriatum_commons/encoding/percent.h       |  1 +
 src/viriatum_commons/io/file.c                | 29 +++++++++++-
 5 files changed, 85 insertions(+), 3 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index 55f1417..cec938a 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -523,6 +523,8 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     be calculates and for the folder path variable */
     size_t url_size;
     char folder_path[VIRIATUM_MAX_URL_SIZE];
+    unsigned char *folder_html;
+    size_t folder_html_size;
 
     /* allocates space for the temporary buffer that will hold
     the description of the error to be sent to the client in case
@@ -632,6 +634,10 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
             if(url_size > 2) { folder_path[url_size - 2] = '\0'; }
             else { folder_path[0] = '\0'; }
 
+            /* encodes the folder path so that it's not interpreted as
+            html when it's set on the template */
+            html_encode((unsigned char *) folder_path, strlen(folder_path), &folder_html, &folder_html_size);
+
             /* creates the template handler */
             create_template_handler(&template_handler);
 
@@ -640,7 +646,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
             assign_string_template_handler(
                 template_handler,
                 (unsigned char *) "folder_path",
-                folder_path
+                (char *) folder_html
             );
 
             /* assigns the directory entries to the template handler,
@@ -659,6 +665,10 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
             /* processes the file as a template handler */
             process_template_handler(template_handler, template_path);
 
+            /* releases the encoded folder path as the template
+            has already been processed */
+            FREE(folder_html);
+
             /* sets the template handler in the handler file context and unsets
             the flushed flag */
             handler_file_context->template_handler = template_handler;
diff --git a/src/viriatum/resources/html/base/templates/listing.html.tpl b/src/viriatum/resources/html/base/templates/listing.html.tpl
index cc20827..a38b70c 100644
--- a/src/viriatum/resources/html/base/templates/listing.html.tpl
+++ b/src/viriatum/resources/html/base/templates/listing.html.tpl
@@ -41,7 +41,7 @@
                             ${if item=entry.type value=3 operator=eq}
                                 <td class="icon link"></td>
                             ${/if}
-                            <td class="left name"><a href="${out value=entry.name /}">${out value=entry.name /}</a></td>
+                            <td class="left name"><a href="${out value=entry.link /}">${out value=entry.name /}</a></td>
                             <td class="right date">${out value=entry.time /}</td>
                             <td class="right size">${out value=entry.size_string /}</td>
                         </tr>
diff --git a/src/viriatum_commons/encoding/percent.c b/src/viriatum_commons/encoding/percent.c
index 527dedd..137ab61 100644
--- a/src/viriatum_commons/encoding/percent.c
+++ b/src/viriatum_commons/encoding/percent.c
@@ -148,3 +148,47 @@ ERROR_CODE url_decode(unsigned char *buffer, size_t length, unsigned char **buff
     *buffer_pointer = _buffer;
     return decode_percent(buffer, length, _buffer, length_pointer);
 }
+
+ERROR_CODE html_encode(unsigned char *buffer, size_t length, unsigned char **buffer_pointer, size_t *length_pointer) {
+    /* allocates space for the index accumulator value and for
+    the value to be written in each iteration, together with its
+    length */
+    size_t index;
+    const char *value;
+    size_t value_length;
+
+    /* allocates the output buffer taking into account the largest
+    of the entities and sets the pointer to the current position */
+    unsigned char *_buffer = MALLOC(length * 6 + 1);
+    unsigned char *__buffer = _buffer;
+
+    /* iterates over the range of the provided buffer length
+    in order to encode the characters that have a special meaning
+    in html as the associated entities */
+    for(index = 0; index < length; index++) {
+        switch(buffer[index]) {
+            case '&': value = "&amp;"; break;
+            case '<': value = "&lt;"; break;
+            case '>': value = "&gt;"; break;
+            case '"': value = "&quot;"; break;
+            case '\'': value = "&#39;"; break;
+            default: value = NULL; break;
+        }
+
+        /* in case there's no entity for the character sets it "directly"
+        in the buffer, otherwise copies the entity into it */
+        if(value == NULL) { *__buffer++ = buffer[index]; continue; }
+        value_length = strlen(value);
+        memcpy(__buffer, value, value_length);
+        __buffer += value_length;
+    }
+
+    /* closes the encoded buffer with the null value and sets both
+    the buffer and its length in the output values */
+    *__buffer = '\0';
+    *buffer_pointer = _buffer;
+    *length_pointer = __buffer - _buffer;
+
+    /* raises no error */
+    RAISE_NO_ERROR;
+}
diff --git a/src/viriatum_commons/encoding/percent.h b/src/viriatum_commons/encoding/percent.h
index b8bff5b..4e0dcc0 100644
--- a/src/viriatum_commons/encoding/percent.h
+++ b/src/viriatum_commons/encoding/percent.h
@@ -33,6 +33,7 @@ VIRIATUM_EXPORT_PREFIX ERROR_CODE encode_percent(unsigned char *buffer, size_t l
 VIRIATUM_EXPORT_PREFIX ERROR_CODE decode_percent(unsigned char *buffer, size_t length, unsigned char *_buffer,  size_t *length_pointer);
 VIRIATUM_EXPORT_PREFIX ERROR_CODE url_encode(unsigned char *buffer, size_t length, unsigned char **buffer_pointer, size_t *length_pointer);
 VIRIATUM_EXPORT_PREFIX ERROR_CODE url_decode(unsigned char *buffer, size_t length, unsigned char **buffer_pointer, size_t *length_pointer);
+VIRIATUM_EXPORT_PREFIX ERROR_CODE html_encode(unsigned char *buffer, size_t length, unsigned char **buffer_pointer, size_t *length_pointer);
 
 static __inline char from_hex(unsigned char byte) {
     return isdigit(byte) ? byte - '0' : tolower(byte) - 'a' + 10;
diff --git a/src/viriatum_commons/io/file.c b/src/viriatum_commons/io/file.c
index 94598a8..cdb861f 100644
--- a/src/viriatum_commons/io/file.c
+++ b/src/viriatum_commons/io/file.c
@@ -28,6 +28,7 @@
 #include "stdafx.h"
 
 #include "file.h"
+#include "../encoding/encoding.h"
 
 ERROR_CODE open_file(char *file_path, char *mode, FILE **file_pointer) {
     /* allocates space for the file pointer to be used
@@ -240,6 +241,14 @@ ERROR_CODE delete_directory_entries_map_file(struct linked_list_t *map) {
             (unsigned char *) "name",
             (void **) &entry_value_type
         );
+        FREE(entry_value_type->value.value_string);
+        delete_type(entry_value_type);
+        get_value_string_hash_map(
+            entry_type->value.value_map,
+            (unsigned char *) "link",
+            (void **) &entry_value_type
+        );
+        FREE(entry_value_type->value.value_string);
         delete_type(entry_value_type);
         get_value_string_hash_map(
             entry_type->value.value_map,
@@ -291,6 +300,12 @@ ERROR_CODE entries_to_map_file(struct linked_list_t *entries, struct linked_list
     char *date_time_string;
     char *size_string;
 
+    /* allocates space for the name of the entry encoded to be
+    presented as html and to be used as the (link) url */
+    unsigned char *name_string;
+    unsigned char *link_string;
+    size_t string_length;
+
     /* creates a new linke list in the for the entries maps */
     create_linked_list(&map);
 
@@ -333,6 +348,11 @@ ERROR_CODE entries_to_map_file(struct linked_list_t *entries, struct linked_list
         if(entry->type == FILE_TYPE_DIRECTORY) { memcpy(size_string, "-", sizeof("-")); }
         else { format_bytes(size_string, 128, entry->size); }
 
+        /* encodes the name of the entry, any character of it is valid
+        so it must not be interpreted as either html or a part of an url */
+        html_encode(entry->name, strlen((char *) entry->name), &name_string, &string_length);
+        url_encode(entry->name, strlen((char *) entry->name), &link_string, &string_length);
+
         /* creates the various types for the various entry values
         and sets them in the entry map for reference */
         create_type(&entry_value_type, INTEGER_TYPE);
@@ -343,12 +363,19 @@ ERROR_CODE entries_to_map_file(struct linked_list_t *entries, struct linked_list
             (void *) entry_value_type
         );
         create_type(&entry_value_type, STRING_TYPE);
-        entry_value_type->value.value_string = (char *) entry->name;
+        entry_value_type->value.value_string = (char *) name_string;
         set_value_string_hash_map(
             entry_map,
             (unsigned char *) "name",
             (void *) entry_value_type
         );
+        create_type(&entry_value_type, STRING_TYPE);
+        entry_value_type->value.value_string = (char *) link_string;
+        set_value_string_hash_map(
+            entry_map,
+            (unsigned char *) "link",
+            (void *) entry_value_type
+        );
         create_type(&entry_value_type, INTEGER_TYPE);
         entry_value_type->value.value_int = (int) entry->size;
         set_value_string_hash_map(
-- 
2.43.0


From 1ae0bbc6755cf9ee835715278c691e8b9102c3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:53 +0000
Subject: [PATCH 101/110] fix: a response without a length lasts until the end
 of the connection

---
 src/viriatum/http/http_parser.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index ffb6c60..7f91d8e 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -1584,7 +1584,8 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                             value so that it can be used later */
                             http_parser->_content_length = http_parser->content_length;
                         } else {
-                            if(http_parser->type == HTTP_REQUEST || http_should_keep_alive(http_parser)) {
+                            if(http_parser->type == HTTP_REQUEST || http_parser->status_code / 100 == 1 ||
+                               http_parser->status_code == 204 || http_parser->status_code == 304) {
                                 /* assumes content-length 0 - read the next */
                                 HTTP_CALLBACK(message_complete);
                                 state = NEW_MESSAGE();
@@ -1763,12 +1764,6 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
         }
     }
 
-    if(state == STATE_BODY_IDENTITY_EOF) {
-        HTTP_CALLBACK(message_complete);
-        state = NEW_MESSAGE();
-        parse_count++;
-    }
-
     /* updates (saves) the vaious parser state values into the
     proper structure so that they may be used latter in further
     parsing stages (partial parsing) */
-- 
2.43.0


From cfd446e007a3d8d10b3d6a3ba0f8760190ff9f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:53 +0000
Subject: [PATCH 102/110] fix: the proxy does not wait for the body of a
 response that has none

---
 src/viriatum/handlers/handler_proxy.c | 12 ++++++++++--
 src/viriatum/handlers/handler_proxy.h |  6 ++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 5ecaf7e..c3dee22 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -95,6 +95,7 @@ ERROR_CODE create_handler_proxy_context(struct handler_proxy_context_t **handler
     /* sets the handler proxy default values, should not create
     any problem with the initial handling */
     handler_proxy_context->proxy_pass = NULL;
+    handler_proxy_context->head_request = FALSE;
     handler_proxy_context->buffer = MALLOC(1024);
     handler_proxy_context->buffer_size = 0;
     handler_proxy_context->buffer_max_size = 1024;
@@ -551,6 +552,10 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
 
+    /* updates the flag that controls if there's going to be no body in
+    the response, according to the method of the request */
+    handler_proxy_context->head_request = http_parser->method == HTTP_HEAD;
+
     /* writes the initial line of the HTTP message into the buffer for
     writing, note that the path in it is always an absolute one */
     write_proxy_buffer(handler_proxy_context, (char *) method, strlen(method));
@@ -1002,7 +1007,10 @@ ERROR_CODE headers_complete_callback_backend(struct http_parser_t *http_parser)
         connection_c->unregister_read(connection_c);
     }
 
-    /* raises no error */
+    /* in case the response has no body (whatever the length set in its
+    headers is) notifies the parser about it, otherwise raises no error */
+    if(handler_proxy_context->head_request == TRUE || http_parser->status_code == 204 ||
+        http_parser->status_code == 304) { return 1; }
     RAISE_NO_ERROR;
 }
 
@@ -1061,7 +1069,7 @@ ERROR_CODE message_complete_callback_backend(struct http_parser_t *http_parser)
     the cleanup handler callback is called at the end of all the pending
     write operations, this is a required "empty" operation (except for
     chunked contents where it contains the final chunk) */
-    unsigned char chunked = http_parser->flags & FLAG_CHUNKED;
+    unsigned char chunked = (http_parser->flags & FLAG_CHUNKED) && !(http_parser->flags & FLAG_SKIPBODY);
     write_connection_c(
         connection,
         (unsigned char *) (chunked ? "0\r\n\r\n" : ""),
diff --git a/src/viriatum/handlers/handler_proxy.h b/src/viriatum/handlers/handler_proxy.h
index df607d4..bbd16f9 100644
--- a/src/viriatum/handlers/handler_proxy.h
+++ b/src/viriatum/handlers/handler_proxy.h
@@ -128,6 +128,12 @@ typedef struct handler_proxy_context_t {
      */
     struct url_static_t url_s;
 
+    /**
+     * If the request is a HEAD one, the response to it contains
+     * no body even if there's a length (or encoding) set in it.
+     */
+    char head_request;
+
     /**
      * The buffer that is going to be used before the data may
      * be flushed to the target proxy client, the size of this buffer
-- 
2.43.0


From af405cff9d417fba0019d553f0b8f89fbca61769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:53 +0000
Subject: [PATCH 103/110] fix: the proxy forwards the interim responses of the
 backend

---
 src/viriatum/handlers/handler_proxy.c | 35 +++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index c3dee22..114a85b 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -720,12 +720,24 @@ static size_t find_head_end(const char *buffer, size_t buffer_size) {
     return 0;
 }
 
+static char is_interim_head(const char *buffer, size_t buffer_size) {
+    /* an interim response (not the one for the upgrade of the protocol) is
+    always followed by the final response to the request */
+    if(buffer_size < 12 || memcmp(buffer, "HTTP/", 5) != 0) { return FALSE; }
+    return memcmp(&buffer[8], " 1", 2) == 0 && memcmp(&buffer[9], "101", 3) != 0;
+}
+
 ERROR_CODE data_backend_handler(struct io_connection_t *io_connection, unsigned char *buffer, size_t buffer_size) {
     /* allocates space for the number of bytes processed by the parser and
     for the reference to the data to be processed by it */
     int processed;
     char *head_buffer;
 
+    /* allocates space for the size of the head of an interim response and
+    for the buffer to be used in the forwarding of it */
+    size_t interim_size;
+    char *interim_buffer;
+
     /* allocates space for the proxy context that may be retrieved
     latter in the function */
     struct handler_proxy_context_t *handler_proxy_context;
@@ -760,6 +772,29 @@ ERROR_CODE data_backend_handler(struct io_connection_t *io_connection, unsigned
         );
         memcpy(&handler_proxy_context->head_buffer[handler_proxy_context->head_size], buffer, buffer_size);
         handler_proxy_context->head_size += buffer_size;
+
+        /* forwards the interim responses as they were received, these are
+        not the response to the request that is going to be processed */
+        while(TRUE) {
+            interim_size = find_head_end(handler_proxy_context->head_buffer, handler_proxy_context->head_size);
+            if(!is_interim_head(handler_proxy_context->head_buffer, interim_size)) { break; }
+            interim_buffer = MALLOC(interim_size);
+            memcpy(interim_buffer, handler_proxy_context->head_buffer, interim_size);
+            write_connection(
+                handler_proxy_context->connection,
+                (unsigned char *) interim_buffer,
+                interim_size,
+                NULL,
+                NULL
+            );
+            handler_proxy_context->head_size -= interim_size;
+            memmove(
+                handler_proxy_context->head_buffer,
+                &handler_proxy_context->head_buffer[interim_size],
+                handler_proxy_context->head_size
+            );
+        }
+
         if(find_head_end(handler_proxy_context->head_buffer, handler_proxy_context->head_size) == 0) {
             if(handler_proxy_context->head_size > VIRIATUM_MAX_HEAD_SIZE) {
                 connection->close_connection(connection);
-- 
2.43.0


From a4c689b1da91010ef21beedec5bdbca1e5ef0cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:53 +0000
Subject: [PATCH 104/110] fix: the response to a HEAD request contains no body

---
 .../src/viriatum_mod_diag/module/handler.c      |  6 ++++--
 .../src/viriatum_mod_gif/module/handler.c       |  6 ++++--
 src/viriatum/handlers/handler_file.c            |  6 +++---
 src/viriatum/http/http_util.c                   | 17 ++++++++++++++---
 4 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/modules/mod_diag/src/viriatum_mod_diag/module/handler.c b/modules/mod_diag/src/viriatum_mod_diag/module/handler.c
index c833e36..f34b826 100644
--- a/modules/mod_diag/src/viriatum_mod_diag/module/handler.c
+++ b/modules/mod_diag/src/viriatum_mod_diag/module/handler.c
@@ -142,8 +142,10 @@ ERROR_CODE _send_response_handler_diag(struct http_parser_t *http_parser) {
         CONTENT_TYPE_H ": %s\r\n\r\n",
         "application/json"
     );
-    memcpy(&buffer[count], info, info_size);
-    count += info_size;
+    if(http_parser->method != HTTP_HEAD) {
+        memcpy(&buffer[count], info, info_size);
+        count += info_size;
+    }
 
     /* writes the response to the connection, this will write the
     complete message to the connection, upon finishing the sent operation
diff --git a/modules/mod_gif/src/viriatum_mod_gif/module/handler.c b/modules/mod_gif/src/viriatum_mod_gif/module/handler.c
index f0bb13b..cd8b44f 100644
--- a/modules/mod_gif/src/viriatum_mod_gif/module/handler.c
+++ b/modules/mod_gif/src/viriatum_mod_gif/module/handler.c
@@ -103,8 +103,10 @@ ERROR_CODE _send_response_handler_gif(struct http_parser_t *http_parser) {
         CONTENT_TYPE_H ": %s\r\n\r\n",
         "image/gif"
     );
-    memcpy(&buffer[count], _empty_gif, _empty_gif_size);
-    count += _empty_gif_size;
+    if(http_parser->method != HTTP_HEAD) {
+        memcpy(&buffer[count], _empty_gif, _empty_gif_size);
+        count += _empty_gif_size;
+    }
 
     /* writes the response to the connection, this will write the
     complete message to the connection, upon finishing the sent operation
diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index cec938a..9b7e687 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -844,7 +844,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
             connection,
             (unsigned char *) headers_buffer,
             (unsigned int) strlen(headers_buffer),
-            _send_data_handler_file,
+            http_parser->method == HTTP_HEAD ? _cleanup_handler_file : _send_data_handler_file,
             handler_file_context
         );
     }
@@ -930,7 +930,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
             connection,
             (unsigned char *) headers_buffer,
             (unsigned int) strlen(headers_buffer),
-            _send_chunk_handler_file,
+            http_parser->method == HTTP_HEAD ? _cleanup_handler_file : _send_chunk_handler_file,
             handler_file_context
         );
     }
@@ -987,7 +987,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
             connection,
             (unsigned char *) headers_buffer,
             (unsigned int) strlen(headers_buffer),
-            _send_chunk_handler_file,
+            http_parser->method == HTTP_HEAD ? _cleanup_handler_file : _send_chunk_handler_file,
             handler_file_context
         );
     }
diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index 7ec7611..9a82b17 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -29,6 +29,15 @@
 
 #include "http_util.h"
 
+static char is_head_http(struct connection_t *connection) {
+    /* retrieves the HTTP parser of the connection and verifies if the
+    method of the request is the head one, the response to such request
+    contains no body (only the headers are sent) */
+    struct io_connection_t *io_connection = (struct io_connection_t *) connection->lower;
+    struct http_connection_t *http_connection = (struct http_connection_t *) io_connection->lower;
+    return http_connection->http_parser->method == HTTP_HEAD;
+}
+
 size_t write_http_headers(
     struct connection_t *connection,
     char *buffer, size_t size,
@@ -170,7 +179,7 @@ size_t write_http_headers_m(
         cache,
         TRUE
     );
-    memcpy(&buffer[count], message, content_length + 1);
+    if(!is_head_http(connection)) { memcpy(&buffer[count], message, content_length + 1); }
 
     /* returns the number of bytes written into the buffer */
     return count;
@@ -361,7 +370,7 @@ ERROR_CODE write_http_error_a(
         the headers and then the resulting contents from the template handler */
         create_string_buffer(&string_buffer);
         append_string_buffer(string_buffer, (unsigned char *) headers_buffer);
-        append_string_buffer(string_buffer, template_handler->string_value);
+        if(!is_head_http(connection)) { append_string_buffer(string_buffer, template_handler->string_value); }
         join_string_buffer(string_buffer, &result_buffer);
         result_length = string_buffer->string_length;
         delete_string_buffer(string_buffer);
@@ -427,7 +436,9 @@ ERROR_CODE write_http_error_a(
                 realm,
                 TRUE
             );
-            memcpy(&headers_buffer[count], _error_description, strlen(_error_description) + 1);
+            if(!is_head_http(connection)) {
+                memcpy(&headers_buffer[count], _error_description, strlen(_error_description) + 1);
+            }
         }
 
         /* writes both the headers to the connection, an then
-- 
2.43.0


From 6bd7f7b9d3f60dac90e352566c8636c49031f365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:40 +0000
Subject: [PATCH 105/110] fix: the data of the requests already processed is
 released

---
 src/viriatum/stream/stream_http.c | 44 ++++++++++---------------------
 1 file changed, 14 insertions(+), 30 deletions(-)

diff --git a/src/viriatum/stream/stream_http.c b/src/viriatum/stream/stream_http.c
index f840be4..85e63b2 100644
--- a/src/viriatum/stream/stream_http.c
+++ b/src/viriatum/stream/stream_http.c
@@ -308,41 +308,25 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
 
         /* in case the current state in the HTTP parser is the
         start state, the message is considered to be completly
-        parsed (new message may come after) */
-        if(http_connection->http_parser->state == STATE_START_RES) {
-            /* resets the HTTP parser state */
-            http_connection->http_parser->type = 2;
-            http_connection->http_parser->flags = 6;
-            http_connection->http_parser->state = STATE_START_REQ;
-            http_connection->http_parser->header_state = 0;
-            http_connection->http_parser->read_count = 0;
-            http_connection->http_parser->content_length = -1;
-            http_connection->http_parser->http_major = 0;
-            http_connection->http_parser->http_minor = 0;
-            http_connection->http_parser->status_code = 0;
-            http_connection->http_parser->method = 0;
-            http_connection->http_parser->upgrade = 0;
+        parsed (new message may come after) and in case there's no
+        more data to be processed it's time to reset the buffer */
+        if(http_connection->http_parser->state == STATE_START_REQ &&
+            http_connection->read_offset == http_connection->buffer_offset) {
+            /* resets the internal parser state values, that refer
+            the buffer that is going to be released */
             http_connection->http_parser->_content_length = 0;
-
-            /* resets the internal parser state values */
             http_connection->http_parser->header_field_mark = 0;
             http_connection->http_parser->header_value_mark = 0;
             http_connection->http_parser->url_mark = 0;
 
-            /* in case the current HTTP connection read offset has reached
-            the buffer size it's time to reset the buffer (no more data to
-            be processed), the buffer size should come from the content length
-            value of the actual message */
-            if(http_connection->read_offset == http_connection->buffer_size) {
-                /* releases the current HTTP connection buffer and then
-                unsets the buffer from the connection and updates the size
-                of it to the initial empty value (buffer reset) */
-                FREE(http_connection->buffer);
-                http_connection->buffer = NULL;
-                http_connection->buffer_size = 0;
-                http_connection->buffer_offset = 0;
-                http_connection->read_offset = 0;
-            }
+            /* releases the current HTTP connection buffer and then
+            unsets the buffer from the connection and updates the size
+            of it to the initial empty value (buffer reset) */
+            FREE(http_connection->buffer);
+            http_connection->buffer = NULL;
+            http_connection->buffer_size = 0;
+            http_connection->buffer_offset = 0;
+            http_connection->read_offset = 0;
         }
 
         /* in case all the data has been read from the connection
-- 
2.43.0


From 06514187afe8e201be1fe5e058a4ac3af25fedfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:45 +0000
Subject: [PATCH 106/110] fix: the sha1 counter is right after an update of 512
 MB or more

---
 src/viriatum_commons/checksum/sha1.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/checksum/sha1.c b/src/viriatum_commons/checksum/sha1.c
index a1954db..3eb40fb 100644
--- a/src/viriatum_commons/checksum/sha1.c
+++ b/src/viriatum_commons/checksum/sha1.c
@@ -55,8 +55,8 @@ void update_sha1(struct sha1_context_t *context, const unsigned char *data, cons
     size_t i, j;
 
     j = (context->count[0] >> 3) & 63;
-    if((context->count[0] += size << 3) < (size << 3)) { context->count[1]++; }
-    context->count[1] += (size >> 29);
+    if((context->count[0] += (unsigned int) (size << 3)) < (unsigned int) (size << 3)) { context->count[1]++; }
+    context->count[1] += (unsigned int) (size >> 29);
     if((j + size) > 63) {
         memcpy(&context->buffer[j], data, (i = 64 - j));
         _transform_sha1(context->state, context->buffer);
-- 
2.43.0


From 58f5a46693e4ba703bf65b700b91808e43ed23b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:02 +0000
Subject: [PATCH 107/110] fix: a content length that is announced does not
 reserve the memory for it

---
 src/viriatum/stream/stream_http.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/stream/stream_http.c b/src/viriatum/stream/stream_http.c
index 85e63b2..44e600c 100644
--- a/src/viriatum/stream/stream_http.c
+++ b/src/viriatum/stream/stream_http.c
@@ -224,8 +224,10 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
         minimal size required for the handling the memory copy (offset strategy) and
         another that aims at pre-allocating size for the complete message buffer (content
         length strategy) the maximum value of both is selected as the new buffer size
-        and is used for the reallocation of the buffer */
+        and is used for the reallocation of the buffer, note that the content length is
+        only announced by the client and so no more than the data received is reserved */
         size_offset = http_connection->buffer_offset + buffer_size;
+        if(content_length > size_offset) { content_length = size_offset; }
         size_length = http_connection->buffer_size + content_length;
         http_connection->buffer_size = size_length > size_offset ? size_length : size_offset;
         _previous = http_connection->buffer;
-- 
2.43.0


From 16b530bf503d958cb4f209bf21c841fb76f81e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:50 +0000
Subject: [PATCH 108/110] fix: a connection that is not registered for reading
 is not read

---
 src/viriatum/stream/stream_io.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index 0ca77d5..fc0dadc 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -282,6 +282,11 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
     /* iterates continuously to read the data that is currently
     available in the connection for reading */
     while(TRUE) {
+        /* in case the connection is no longer registered for reading
+        (eg: flow control) the data is kept in the socket, a new read event
+        is triggered for it as soon as the connection is registered again */
+        if(connection->read_registered == FALSE) { break; }
+
         /* in case the current total number of bytes read during
         this read operation is greater than the expected maximum
         the read operation should be delayed so that the write
-- 
2.43.0


From 7e20aed1e0e10055c714204bcdc6da6c2818cdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:04 +0000
Subject: [PATCH 109/110] fix: connecting to a backend does not block the other
 connections

---
 src/viriatum/system/client.c         | 18 +++++++++++-------
 src/viriatum_commons/system/socket.h |  2 ++
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/viriatum/system/client.c b/src/viriatum/system/client.c
index 4d398ca..6e09576 100644
--- a/src/viriatum/system/client.c
+++ b/src/viriatum/system/client.c
@@ -77,10 +77,17 @@ ERROR_CODE _create_client_connection(struct connection_t **connection_pointer, s
     memcpy(&serv_addr.sin_addr.s_addr, server->h_addr, server->h_length);
     serv_addr.sin_port = htons(port);
 
+    /* in case viriatum is set to non blocking, changes the current
+    socket behavior to non blocking mode, this must be done before the
+    connect operation so that a host that takes some time to answer (or
+    that never does it) does not block the other connections */
+    if(VIRIATUM_NON_BLOCKING) { SOCKET_SET_NON_BLOCKING(socket_handle, flags); }
+
     /* tries to connect to the remote host and in case there's
-    a problem in the connection attempt, raises an error */
+    a problem in the connection attempt, raises an error, note that
+    a connection in progress is going to be notified by the polling */
     error = SOCKET_CONNECT_SIZE(socket_handle, serv_addr, sizeof(SOCKET_ADDRESS_INTERNET));
-    if(SOCKET_TEST_ERROR(error)) {
+    if(SOCKET_TEST_ERROR(error) && SOCKET_GET_ERROR_CODE(error) != SOCKET_INPROGRESS) {
         SOCKET_CLOSE(socket_handle);
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
@@ -88,11 +95,8 @@ ERROR_CODE _create_client_connection(struct connection_t **connection_pointer, s
         );
     }
 
-    /* in case viriatum is set to non blocking, changes the current
-    socket behavior to non blocking mode then sets the socket to the
-    non push mode in case it's required by configuration this implies
-    also checking for the no (tcp) wait variable */
-    if(VIRIATUM_NON_BLOCKING) { SOCKET_SET_NON_BLOCKING(socket_handle, flags); }
+    /* sets the socket to the non push mode in case it's required by
+    configuration this implies also checking for the no (tcp) wait variable */
     if(VIRIATUM_KEEPALIVE) { SOCKET_SET_KEEPALIVE(socket_handle, option_value); }
     if(VIRIATUM_NO_WAIT) { SOCKET_SET_NO_WAIT(socket_handle, option_value); }
     if(VIRIATUM_NO_PUSH) { SOCKET_SET_NO_PUSH(socket_handle, option_value); }
diff --git a/src/viriatum_commons/system/socket.h b/src/viriatum_commons/system/socket.h
index 5590a0f..dc6a3d2 100644
--- a/src/viriatum_commons/system/socket.h
+++ b/src/viriatum_commons/system/socket.h
@@ -54,6 +54,7 @@
 #define SOCKET_ERROR_CODE int
 #define SOCKET_IOCTL ioctlsocket
 #define SOCKET_WOULDBLOCK WSAEWOULDBLOCK
+#define SOCKET_INPROGRESS WSAEWOULDBLOCK
 #define SOCKET_INTERNET_TYPE AF_INET
 #define SOCKET_INTERNET6_TYPE AF_INET6
 #define SOCKET_INTERNET_ALL_TYPE PF_UNSPEC
@@ -130,6 +131,7 @@
 #define SOCKET_IOCTL ioctl
 #define SOCKET_FCNTL fcntl
 #define SOCKET_WOULDBLOCK EWOULDBLOCK
+#define SOCKET_INPROGRESS EINPROGRESS
 #define SOCKET_INTERNET_TYPE AF_INET
 #define SOCKET_INTERNET6_TYPE AF_INET6
 #define SOCKET_PACKET_TYPE SOCK_STREAM
-- 
2.43.0


From 073294a13f6ffbc0a5eeced07bdf3c1c9a05c41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:47 +0000
Subject: [PATCH 110/110] fix: a backend that fails before it answers does not
 end a kept connection

---
 src/viriatum/handlers/handler_proxy.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 114a85b..6498a4d 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -836,6 +836,8 @@ ERROR_CODE close_backend_handler(struct io_connection_t *io_connection) {
     struct handler_proxy_context_t *handler_proxy_context;
     struct connection_t *connection_s;
     struct io_connection_t *io_connection_s;
+    struct http_connection_t *http_connection_s;
+    unsigned char flags;
 
     /* reserves space for both the top level HTTP handler structure and the
     concrete proxy handler structure containing the specifics of the proxy and
@@ -906,9 +908,11 @@ ERROR_CODE close_backend_handler(struct io_connection_t *io_connection) {
         /* in case there's data currently pending then the final connection cleanup
         operation has not been yet scheduled, so one must be scheduled to close
         the service (proxy client) connection, in case nothing was sent to it an
-        error is sent before the closing of the connection */
+        error is sent instead and the connection is kept if it was so requested */
         if(handler_proxy_context->pending && handler_proxy_context->out_buffer_size == 0) {
             handler_proxy_context->pending = FALSE;
+            http_connection_s = (struct http_connection_t *) io_connection_s->lower;
+            flags = http_connection_s->http_parser->flags;
             write_http_error(
                 connection_s,
                 MALLOC(VIRIATUM_HTTP_SIZE),
@@ -917,9 +921,9 @@ ERROR_CODE close_backend_handler(struct io_connection_t *io_connection) {
                 502,
                 "Bad gateway",
                 "Invalid proxy connection",
-                KEEP_CLOSE,
+                flags & FLAG_KEEP_ALIVE ? KEEP_ALIVE : KEEP_CLOSE,
                 _cleanup_handler_proxy,
-                NULL
+                (void *) (size_t) flags
             );
         } else if(handler_proxy_context->pending) {
             handler_proxy_context->pending = FALSE;
-- 
2.43.0

