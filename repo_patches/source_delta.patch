From 959df2115745c6ceb5a9ef9ca824fbf0c851df6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:17 +0000
Subject: [PATCH 01/96] fix: do not read past short section names when looking
 for locations

calculate_locations_service compared nine bytes of every section name with
memcmp, reading past the allocation of names shorter than that ([general]).
---
 src/viriatum/system/service.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 69b19c6..f355764 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -321,7 +321,7 @@ ERROR_CODE calculate_locations_service(struct service_t *service) {
         get_next_iterator(iterator, (void **) &element);
         if(element == NULL) { break; }
 
-        is_equal = memcmp(element->key_string, "location:", sizeof("location:") - 1);
+        is_equal = strncmp((char *) element->key_string, "location:", sizeof("location:") - 1);
         if(is_equal != 0) { continue; }
 
         get_value_string_sort_map(configuration, element->key_string, (void **) &location);
-- 
2.43.0


From 4d831bb32609d3639961fb5f52740f730f4ddd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:42 +0000
Subject: [PATCH 02/96] fix: stop using a connection once its data handler has
 closed it

read_handler_stream_io kept reading from (and closing) a connection that the
data handler had just closed, using the released upper layers or calling the
unset close_connection callback.
---
 src/viriatum/stream/stream_io.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index 4ff8eeb..eca71d9 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -305,6 +305,10 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
                 V_DEBUG("Finished calling on data handler\n");
             }
 
+            /* in case the data handler has closed the connection the
+            underlying structures are already gone, returns immediately */
+            if(connection->status == STATUS_CLOSED) { RAISE_NO_ERROR; }
+
             /* resets the buffer size to the original (initial)
             position so that it can be reused, note that both
             the buffer pointer and the buffer size are reseted */
@@ -411,8 +415,11 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
             }
 
             /* closes the connection as the error was fatal, so this is the
-            best escape approach to solve the issue */
-            connection->close_connection(connection);
+            best escape approach to solve the issue (the data handler may
+            have already closed it) */
+            if(connection->status != STATUS_CLOSED) {
+                connection->close_connection(connection);
+            }
 
             /* breaks the switch */
             break;
-- 
2.43.0


From 681b08dfafbb9713b133e2eb04b20fd1375601ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:18 +0000
Subject: [PATCH 03/96] fix: forget the outstanding operations of connections
 being removed

A connection with a response queued that was closed in the same polling cycle
stayed in the lists of outstanding operations after being deleted.
---
 src/viriatum/polling/polling_epoll.c  | 10 +++++++++
 src/viriatum/polling/polling_select.c | 10 +++++++++
 src/viriatum/polling/polling_select.h | 29 +++++++++++++++++++++++++++
 3 files changed, 49 insertions(+)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index 6896c16..bb1c2f3 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -198,6 +198,16 @@ ERROR_CODE unregister_connection_polling_epoll(
             &polling_epoll->remove_connections_size,
             connection
         );
+        remove_outstanding(
+            polling_epoll->read_outstanding,
+            &polling_epoll->read_outstanding_size,
+            connection
+        );
+        remove_outstanding(
+            polling_epoll->write_outstanding,
+            &polling_epoll->write_outstanding_size,
+            connection
+        );
     }
 
     /* decrements the counter that controls the number of events
diff --git a/src/viriatum/polling/polling_select.c b/src/viriatum/polling/polling_select.c
index 7d4f1d5..87d854a 100644
--- a/src/viriatum/polling/polling_select.c
+++ b/src/viriatum/polling/polling_select.c
@@ -183,6 +183,16 @@ ERROR_CODE unregister_connection_polling_select(
             &polling_select->remove_connections_size,
             connection
         );
+        remove_outstanding(
+            polling_select->read_outstanding,
+            &polling_select->read_outstanding_size,
+            connection
+        );
+        remove_outstanding(
+            polling_select->write_outstanding,
+            &polling_select->write_outstanding_size,
+            connection
+        );
     }
 
     /* raises no error */
diff --git a/src/viriatum/polling/polling_select.h b/src/viriatum/polling/polling_select.h
index d8124d1..b24404f 100644
--- a/src/viriatum/polling/polling_select.h
+++ b/src/viriatum/polling/polling_select.h
@@ -235,6 +235,35 @@ ERROR_CODE _unregister_sockets_set_polling_select(
     SOCKET_SET *sockets_set
 );
 
+/**
+ * Removes every reference to the provided connection from the list
+ * of connections with outstanding operations. Must be called for
+ * connections that are going to be deleted, as otherwise the next
+ * polling operation would use the deleted connection.
+ *
+ * @param outstanding The list of connections with outstanding
+ * operations.
+ * @param outstanding_size_pointer Pointer to the size of the list.
+ * @param connection The connection to be removed from the list.
+ */
+static __inline void remove_outstanding(
+    struct connection_t **outstanding,
+    size_t *outstanding_size_pointer,
+    struct connection_t *connection
+) {
+    size_t index;
+    size_t count = 0;
+
+    /* keeps only the connections that are not the one to be removed,
+    maintaining their relative order */
+    for(index = 0; index < *outstanding_size_pointer; index++) {
+        if(outstanding[index] == connection) { continue; }
+        outstanding[count] = outstanding[index];
+        count++;
+    }
+    *outstanding_size_pointer = count;
+}
+
 /**
  * Removes a connection and insert it into the remove connections
  * array, in order for it to be removed in next main loop.
-- 
2.43.0


From 05cee21af1ed584ebd90889eb84f91f285423b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:18 +0000
Subject: [PATCH 04/96] fix: do not read the pivot of an empty sequence in
 quicksort

---
 src/viriatum_commons/sorting/quicksort.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/sorting/quicksort.c b/src/viriatum_commons/sorting/quicksort.c
index 0266f38..7724313 100644
--- a/src/viriatum_commons/sorting/quicksort.c
+++ b/src/viriatum_commons/sorting/quicksort.c
@@ -30,8 +30,10 @@
 #include "quicksort.h"
 
 void sort_quicksort(void **sequence, size_t beginning, size_t end, comparator cmp) {
-    /* retrieves the initial pivor, left and right elements */
-    void *pivot = sequence[beginning];
+    /* allocates the pivot and retrieves the initial left and
+    right elements, the pivot is only read once the sequence is
+    known to have elements to be sorted */
+    void *pivot;
     size_t left = beginning + 1;
     size_t right = end;
 
@@ -42,6 +44,9 @@ void sort_quicksort(void **sequence, size_t beginning, size_t end, comparator cm
         return;
     }
 
+    /* retrieves the initial pivot element */
+    pivot = sequence[beginning];
+
     /* iterates while the right index is greater
     than the left index */
     while(left < right) {
-- 
2.43.0


From af4717634e3d857ac45ef8e9439ae33220b989ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:35 +0000
Subject: [PATCH 05/96] fix: bound the formatted writes to the size of their
 buffers on Unix

---
 src/viriatum_commons/system/system_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/system/system_util.h b/src/viriatum_commons/system/system_util.h
index fb8fc25..a90e577 100644
--- a/src/viriatum_commons/system/system_util.h
+++ b/src/viriatum_commons/system/system_util.h
@@ -62,8 +62,8 @@
 #define LOCAL_TIME(local_time_value, time_value) local_time_value = localtime(time_value)
 #define SLEEP(miliseconds) usleep((useconds_t) miliseconds * 1000)
 #define GET_PID() getpid()
-#define SPRINTF(buffer, size, format, ...) sprintf(buffer, format, __VA_ARGS__)
-#define VSPRINTF(buffer, size, format, arg) vsprintf(buffer, format, arg)
+#define SPRINTF(buffer, size, format, ...) snprintf(buffer, size, format, __VA_ARGS__)
+#define VSPRINTF(buffer, size, format, arg) vsnprintf(buffer, size, format, arg)
 #define SSCANF(buffer, format, ...) sscanf(buffer, format, __VA_ARGS__)
 #define STRTOK(string, delimiter, context) strtok(string, delimiter); dump((void *) &context)
 #define STRCPY(destination, size, source) strcpy(destination, source)
-- 
2.43.0


From f4b43f973a8456c3a5de2a417fe8215d5a9a6e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:48 +0000
Subject: [PATCH 06/96] fix: keep file requests inside of the base path and of
 the buffers of the file handler

---
 src/viriatum/handlers/handler_file.c | 211 +++++++++++++--------------
 src/viriatum/handlers/handler_file.h |   5 +
 2 files changed, 105 insertions(+), 111 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index f68fc89..7e4dc9c 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -252,15 +252,93 @@ ERROR_CODE message_begin_callback_handler_file(struct http_parser_t *http_parser
     RAISE_NO_ERROR;
 }
 
-ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
-    /* allocates memory for the variable that will hold the
-    size of the decoded file path */
+ERROR_CODE _resolve_path_handler_file(
+    struct handler_file_context_t *handler_file_context,
+    unsigned char *base_path,
+    unsigned char *url
+) {
+    /* allocates space for the sizes of the various parts of the path,
+    for the result of the decoding and for the iteration pointers */
+    size_t base_size;
+    size_t url_size;
     size_t decoded_size;
+    unsigned char *relative;
+    unsigned char *segment;
+    ERROR_CODE error_code;
+
+    /* resets both the decoded url and the file path, an url that is
+    not possible to be resolved must not refer any existing file */
+    handler_file_context->url_d[0] = '\0';
+    handler_file_context->file_path[0] = '\0';
+    handler_file_context->file_path_d[0] = '\0';
+
+    /* decodes the complete url for the percent encoding, this method
+    uses constant (pre-allocated) memory for fast performance */
+    error_code = decode_percent(
+        handler_file_context->url,
+        strlen((char *) handler_file_context->url),
+        handler_file_context->url_d,
+        &decoded_size
+    );
+    if(IS_ERROR_CODE(error_code)) {
+        handler_file_context->url_d[0] = '\0';
+        RAISE_NO_ERROR;
+    }
+
+    /* populates the file path with the base path, taking into account
+    that the url must start in a separated segment of the path, and
+    verifies that there's enough space for the complete path */
+    if(base_path == NULL) {
+        base_size = strlen(VIRIATUM_CONTENTS_PATH) + strlen(VIRIATUM_BASE_PATH);
+    } else { base_size = strlen((char *) base_path); }
+    url_size = strlen((char *) url);
+    if(base_size + url_size + 2 > VIRIATUM_MAX_PATH_SIZE) { RAISE_NO_ERROR; }
+    if(strlen((char *) handler_file_context->url) + 2 > VIRIATUM_MAX_PATH_SIZE) { RAISE_NO_ERROR; }
+    SPRINTF(
+        (char *) handler_file_context->file_path,
+        VIRIATUM_MAX_PATH_SIZE,
+        "%s%s",
+        base_path == NULL ? VIRIATUM_CONTENTS_PATH : (char *) base_path,
+        base_path == NULL ? VIRIATUM_BASE_PATH : ""
+    );
+    if(url_size > 0 && url[0] != '/' && base_size > 0 &&
+        handler_file_context->file_path[base_size - 1] != '/') {
+        handler_file_context->file_path[base_size] = '/';
+        base_size++;
+    }
+    memcpy(handler_file_context->file_path_d, handler_file_context->file_path, base_size);
+    memcpy(&handler_file_context->file_path[base_size], url, url_size + 1);
+
+    /* decodes the part of the url that refers the file and verifies that
+    the resulting path has no end of string characters embedded */
+    relative = &handler_file_context->file_path_d[base_size];
+    error_code = decode_percent(
+        &handler_file_context->file_path[base_size],
+        url_size,
+        relative,
+        &decoded_size
+    );
+    if(IS_ERROR_CODE(error_code) || strlen((char *) relative) != decoded_size) {
+        handler_file_context->file_path_d[0] = '\0';
+        RAISE_NO_ERROR;
+    }
 
-    /* the complete size of the string that contains the file
-    path "calculated" from the url */
-    size_t file_path_size;
+    /* verifies that none of the segments of the path refers the parent
+    directory as that would allow the access to files outside of the
+    base path */
+    for(segment = relative; segment != NULL; segment = (unsigned char *) strchr((char *) segment, '/')) {
+        while(*segment == '/') { segment++; }
+        if(segment[0] == '.' && segment[1] == '.' && (segment[2] == '/' || segment[2] == '\0')) {
+            handler_file_context->file_path_d[0] = '\0';
+            break;
+        }
+    }
 
+    /* raise no error */
+    RAISE_NO_ERROR;
+}
+
+ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     /* retrieves the handler file context from the HTTP parser */
     struct handler_file_context_t *handler_file_context =\
         (struct handler_file_context_t *) http_parser->context;
@@ -273,38 +351,16 @@ ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const un
     /* copies the memory from the data to the url and then
     puts the end of string in the url, note that only the path
     part of the string is used for the url */
+    if(path_size >= VIRIATUM_MAX_URL_SIZE) { path_size = 0; }
     memcpy(handler_file_context->url, data, path_size);
     handler_file_context->url[path_size] = '\0';
 
     /* prints a debug message */
     V_INFO_F("%s %s\n", get_http_method_string(http_parser->method), handler_file_context->url);
 
-    /* creates the file path using the base viriatum path
+    /* resolves the file path using the base viriatum path
     this should be the complete absolute path */
-    file_path_size = SPRINTF(
-        (char *) handler_file_context->file_path,
-        VIRIATUM_MAX_PATH_SIZE,
-        "%s%s%s",
-        VIRIATUM_CONTENTS_PATH,
-        VIRIATUM_BASE_PATH,
-        handler_file_context->url
-    );
-
-    /* decodes the url and file path for the percent encoding, this method
-    uses constant (pre-allocated) memory for fast performance the resulting
-    value is stored as a simple string in utf-8 encoding */
-    decode_percent(
-        handler_file_context->url,
-        path_size,
-        handler_file_context->url_d,
-        &decoded_size
-    );
-    decode_percent(
-        handler_file_context->file_path,
-        file_path_size,
-        handler_file_context->file_path_d,
-        &decoded_size
-    );
+    _resolve_path_handler_file(handler_file_context, NULL, handler_file_context->url);
 
     /* raise no error */
     RAISE_NO_ERROR;
@@ -373,24 +429,28 @@ ERROR_CODE header_value_callback_handler_file(struct http_parser_t *http_parser,
     to undefined no parsing will exist */
     switch(handler_file_context->next_header) {
         case ETAG:
-            memcpy(handler_file_context->etag, data, 10);
-            handler_file_context->etag[10] = '\0';
+            if(data_size > 10) { data_size = 10; }
+            memcpy(handler_file_context->etag, data, data_size);
+            handler_file_context->etag[data_size] = '\0';
             handler_file_context->etag_status = 2;
             break;
 
         case CACHE_CONTROL:
+            if(data_size >= sizeof(handler_file_context->cache_control)) { data_size = 0; }
             memcpy(handler_file_context->cache_control, data, data_size);
             handler_file_context->cache_control[data_size] = '\0';
             handler_file_context->cache_control_status = 2;
             break;
 
         case AUTHORIZATION:
+            if(data_size >= sizeof(handler_file_context->authorization)) { data_size = 0; }
             memcpy(handler_file_context->authorization, data, data_size);
             handler_file_context->authorization[data_size] = '\0';
             handler_file_context->authorization_status = 2;
             break;
 
         case RANGE:
+            if(data_size >= sizeof(handler_file_context->range)) { data_size = 0; }
             memcpy(handler_file_context->range, data, data_size);
             handler_file_context->range[data_size] = '\0';
             handler_file_context->range_status = 2;
@@ -901,14 +961,6 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
 }
 
 ERROR_CODE path_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
-    /* allocates memory for the variable that will hold the
-    size of the decoded file path */
-    size_t decoded_size;
-
-    /* the complete size of the string that contains the file
-    path "calculated" from the url */
-    size_t file_path_size;
-
     /* retrieves the handler file context from the HTTP parser
     and uses it to retrieve the reference to the base path in context */
     struct handler_file_context_t *handler_file_context =\
@@ -918,69 +970,22 @@ ERROR_CODE path_callback_handler_file(struct http_parser_t *http_parser, const u
     /* copies the memory from the data to the url and then
     puts the end of string in the url, note that only the path
     part of the string is used for the url */
+    if(data_size >= VIRIATUM_MAX_URL_SIZE) { data_size = 0; }
     memcpy(handler_file_context->url, data, data_size);
     handler_file_context->url[data_size] = '\0';
 
     /* prints a debug message */
     V_INFO_F("%s %s\n", get_http_method_string(http_parser->method), handler_file_context->url);
 
-    /* in case a base path is not defined the contant values
-    for the contents and base path must be used */
-    if(base_path == NULL) {
-        /* creates the file path using the base viriatum path
-        this should be the complete absolute path */
-        file_path_size = SPRINTF(
-            (char *) handler_file_context->file_path,
-            VIRIATUM_MAX_PATH_SIZE,
-            "%s%s%s",
-            VIRIATUM_CONTENTS_PATH,
-            VIRIATUM_BASE_PATH,
-            handler_file_context->url
-        );
-    }
-    /* otherwise the currently set base path is used instead for
-    the resolution of the file path */
-    else {
-        /* creates the file path using the base viriatum path
-        this should be the complete absolute path */
-        file_path_size = SPRINTF(
-            (char *) handler_file_context->file_path,
-            VIRIATUM_MAX_PATH_SIZE,
-            "%s%s",
-            base_path,
-            handler_file_context->url
-        );
-    }
-
-    /* decodes the url and file path for the percent encoding, this method
-    uses constant (pre-allocated) memory for fast performance the resulting
-    value is stored as a simple string in utf-8 encoding */
-    decode_percent(
-        handler_file_context->url,
-        data_size,
-        handler_file_context->url_d,
-        &decoded_size
-    );
-    decode_percent(
-        handler_file_context->file_path,
-        file_path_size,
-        handler_file_context->file_path_d,
-        &decoded_size
-    );
+    /* resolves the file path for the url, in case a base path is not
+    defined the contant values for the contents and base path are used */
+    _resolve_path_handler_file(handler_file_context, base_path, handler_file_context->url);
 
     /* raise no error */
     RAISE_NO_ERROR;
 }
 
 ERROR_CODE location_callback_handler_file(struct http_parser_t *http_parser, size_t index, size_t offset) {
-    /* allocates memory for the variable that will hold the
-    size of the decoded file path */
-    size_t decoded_size;
-
-    /* the complete size of the string that contains the file
-    path "calculated" from the url */
-    size_t file_path_size;
-
     /* allocates space for the partial url, resulting from the
     remaining part from the matching of the location */
     unsigned char *partial_url;
@@ -1015,25 +1020,9 @@ ERROR_CODE location_callback_handler_file(struct http_parser_t *http_parser, siz
     of the url in context */
     partial_url = &handler_file_context->url[offset];
 
-    /* creates the file path using the base viriatum path
-    this should be the complete absolute path, note that
-    only the partial url is used (offset from location) */
-    file_path_size = SPRINTF(
-        (char *) handler_file_context->file_path,
-        VIRIATUM_MAX_PATH_SIZE,
-        "%s%s",
-        location->base_path,
-        partial_url
-    );
-
-    /* decodes the file path for the percent encoding, this method
-    uses constant (pre-allocated) memory for fast performance */
-    decode_percent(
-        handler_file_context->file_path,
-        file_path_size,
-        handler_file_context->file_path_d,
-        &decoded_size
-    );
+    /* resolves the file path using the location's base path, note
+    that only the partial url is used (offset from location) */
+    _resolve_path_handler_file(handler_file_context, location->base_path, partial_url);
 
     /* raise no error */
     RAISE_NO_ERROR;
diff --git a/src/viriatum/handlers/handler_file.h b/src/viriatum/handlers/handler_file.h
index 4c12f43..c3601bc 100644
--- a/src/viriatum/handlers/handler_file.h
+++ b/src/viriatum/handlers/handler_file.h
@@ -262,6 +262,11 @@ ERROR_CODE set_handler_file(struct http_connection_t *http_connection);
 ERROR_CODE unset_handler_file(struct http_connection_t *http_connection);
 ERROR_CODE reset_handler_file(struct http_connection_t *http_connection);
 ERROR_CODE message_begin_callback_handler_file(struct http_parser_t *http_parser);
+ERROR_CODE _resolve_path_handler_file(
+    struct handler_file_context_t *handler_file_context,
+    unsigned char *base_path,
+    unsigned char *url
+);
 ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size);
 ERROR_CODE header_field_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size);
 ERROR_CODE header_value_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size);
-- 
2.43.0


From 9ae3e43100ad3a0f3593a64840557ed67bb73c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:14 +0000
Subject: [PATCH 07/96] fix: ignore byte ranges that are not valid and clamp
 the others to the size of the file

---
 src/viriatum/handlers/handler_file.c |  14 ++--
 src/viriatum/http/http_util.c        | 107 +++++++++++----------------
 2 files changed, 49 insertions(+), 72 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index 7e4dc9c..96bc7db 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -849,18 +849,16 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
         );
     }
     /* in case the range value is set for the current file request
-    must calculate the range and retrive the associated file chunk */
-    else if(handler_file_context->range_status == 2) {
-        /* retrieves the initial and final bytes for the requested
-        range, the final range is set in accordance with the file
-        size that is provided */
-        get_http_range_limits(
+    must calculate the range and retrive the associated file chunk,
+    a range that is not valid (or that is not possible to be satisfied)
+    is ignored and the complete file is retrieved */
+    else if(handler_file_context->range_status == 2 &&\
+        !IS_ERROR_CODE(get_http_range_limits(
             handler_file_context->range,
             &handler_file_context->initial_byte,
             &handler_file_context->final_byte,
             file_size
-        );
-
+        ))) {
         /* writes the HTTP static headers to the response indicating
         that only a part of the file is going to be retrieved, then
         writes also the content range header indicating which bytes
diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index 1d4eeb0..fffcfc3 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -427,78 +427,57 @@ ERROR_CODE write_http_error_a(
 }
 
 ERROR_CODE get_http_range_limits(unsigned char *range, size_t *initial_byte, size_t *final_byte, size_t size) {
-    /* allocates space for the byte to be used in the iteration,
-    for the mark value and for the iteration index counter */
-    char byte;
-    char *start;
+    /* allocates space for the pointers to be used in the parsing
+    of the range string */
+    char *pointer;
     char *end;
-    size_t mark;
-    size_t index;
-
-    /* creates the inital and final local values and starts them
-    at the invalid (unset) values (intial state) */
-    long long initial_byte_v = -1;
-    long long final_byte_v = -1;
-
-    /* retrieves the size of the range string using the normal
-    length if a string function */
-    size_t range_s = strlen((char *) range);
-
-    /* initializes the mark value with a zero indicating that the
-    equals separator may not be found (avoids critical problems) */
-    mark = 0;
-
-    /* iterates over the range string character values to try to
-    find the various key values in it from the byte */
-    for(index = 0; index < range_s; index++) {
-        /* retrieves the current byte in iteration and runs the
-        switch testing against it */
-        byte = range[index];
-        switch(byte) {
-            case '=':
-                mark = index + 1;
-                break;
 
-            case '-':
-                if(index == 0) { initial_byte_v = 0; }
-                else {
-                    start = (char *) &range[mark];
-                    end = (char *) &range[index - 1];
-                    initial_byte_v = (long long) STROULL(start, &end, 10);
-                }
-                mark = index + 1;
-                break;
+    /* allocates space for the temporary initial and final byte
+    values to be used for the conversion from string */
+    unsigned long long initial_byte_v;
+    unsigned long long final_byte_v;
 
-            case '\0':
-            case ',':
-                if(index == mark) { final_byte_v = size - 1; }
-                else {
-                    start = (char *) &range[mark];
-                    end = (char *) &range[index - 1];
-                    initial_byte_v = (long long) STROULL(start, &end, 10);
-                }
-                break;
-        }
+    /* in case the unit of the range is not the byte one or in case
+    there's no byte to be retrieved the range is not valid */
+    if(strncmp((char *) range, "bytes=", 6) != 0 || size == 0) {
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Range not valid");
+    }
+    pointer = (char *) &range[6];
+
+    /* in case there's no initial value this is a suffix range that
+    refers the last bytes of the contents (up to the complete size) */
+    if(pointer[0] == '-' && isdigit((unsigned char) pointer[1])) {
+        final_byte_v = STROULL(&pointer[1], &end, 10);
+        if(final_byte_v > size) { final_byte_v = size; }
+        initial_byte_v = size - final_byte_v;
+        final_byte_v = size - 1;
+    }
+    /* otherwise in case both the initial value and the separator are
+    present the final value is optional (defaults to the last byte) */
+    else if(isdigit((unsigned char) pointer[0])) {
+        initial_byte_v = STROULL(pointer, &end, 10);
+        if(*end != '-') { RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Range not valid"); }
+        pointer = end + 1;
+        end = pointer;
+        final_byte_v = size - 1;
+        if(isdigit((unsigned char) pointer[0])) { final_byte_v = STROULL(pointer, &end, 10); }
+        if(final_byte_v < initial_byte_v) { initial_byte_v = size; }
+        if(final_byte_v > size - 1) { final_byte_v = size - 1; }
     }
+    else { RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Range not valid"); }
 
-    /* in case the final byte value hasn't been already
-    set time to update its value with the final byte */
-    if(final_byte_v == -1) {
-        if(index == mark) { final_byte_v = size - 1; }
-        else {
-            start = (char *) &range[mark];
-            end = (char *) &range[index - 1];
-            final_byte_v = (long long) STROULL(start, &end, 10);
-        }
+    /* verifies that there's nothing more in the range (only one range
+    is supported) and that at least one byte is going to be retrieved */
+    if(*end != '\0' || initial_byte_v >= size) {
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Range not valid");
     }
 
-    /* updates both the initial and the final byte pointer
-    references with the appropriate values */
-    *initial_byte = initial_byte_v > 0 ? (size_t) initial_byte_v : 0;
-    *final_byte = final_byte_v > 0 ? (size_t) final_byte_v : 0;
+    /* updates the initial and final bytes values with the values
+    that were just retrieved from the parsing */
+    *initial_byte = (size_t) initial_byte_v;
+    *final_byte = (size_t) final_byte_v;
 
-    /* raises no error as both the initial and the final
-    byte values have been computed with success */
+    /* raises no error */
     RAISE_NO_ERROR;
 }
 
-- 
2.43.0


From ec82aa10dd9df705bbf445a5d2d90e302df95044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:27 +0000
Subject: [PATCH 08/96] fix: dispatch long paths and index files without
 reading or writing out of bounds

---
 src/viriatum/handlers/handler_dispatch.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/viriatum/handlers/handler_dispatch.c b/src/viriatum/handlers/handler_dispatch.c
index d608614..2f4cb05 100644
--- a/src/viriatum/handlers/handler_dispatch.c
+++ b/src/viriatum/handlers/handler_dispatch.c
@@ -222,6 +222,10 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
     char *pointer = (char *) memchr((char *) data, '?', data_size);
     size_t path_size = pointer == NULL ? data_size : pointer - (char *) data;
 
+    /* in case the path is too long to be handled returns immediately
+    the dispatch handler is going to be used to send an error response */
+    if(path_size >= VIRIATUM_MAX_URL_SIZE) { RAISE_NO_ERROR; }
+
     /* copies the memory from the data to the path (partial url),
     then puts the end of string in the path */
     memcpy(path, data, path_size);
@@ -274,12 +278,13 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
             and the current provided path and then runs the file existence
             validation process using the index array provided */
             SPRINTF((char *) base_path, VIRIATUM_MAX_PATH_SIZE, "%s%s", VIRIATUM_CONTENTS_PATH, path);
-            index_ = validate_file((char *) base_path, (char *) options->index, 32, 128);
+            index_ = strlen(VIRIATUM_CONTENTS_PATH) + path_size < VIRIATUM_MAX_PATH_SIZE ?\
+                validate_file((char *) base_path, (char *) options->index, 32, 128) : NULL;
 
             /* in case the index file resolution was successfull
             (a new file was resolved) must match the file path through
             the regular expression pipe, for handler resolution */
-            if(index_ != NULL) {
+            if(index_ != NULL && path_size + strlen(index_) < VIRIATUM_MAX_URL_SIZE) {
                 /* calculates the size of the index path so that
                 it's possible to copy it into the path string */
                 index_size = strlen(index_);
@@ -313,9 +318,17 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
                     break;
                 }
 
+                /* in case there was no matching for the index file path the
+                original match must be preserved */
+                if(index == dispatch_handler->regex_count) { index = _index; }
+
                 /* in case the matching index has changed a new handler reference
                 must be retrieved from the map containing the HTTP handlers */
                 if(index != _index) { get_value_string_hash_map(service->http_handlers_map, handler_name, (void **) &handler); }
+                if(handler == NULL) {
+                    V_ERROR_F("Error retrieving '%s' handler reference\n", handler_name);
+                    RAISE_NO_ERROR;
+                }
 #endif
             }
         }
@@ -340,7 +353,7 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
             if the matched value starts with a slash value for such cases the
             offset to the virtual url must be reduced otherwise abnormal values
             to the url would be considered (creating additional path problems) */
-            virtual_url_offset = match_size > 0 && data[match_size - 1] == '/' ?\
+            virtual_url_offset = match_size > 0 && path[match_size - 1] == '/' ?\
                 match_size - 1 : match_size;
             CALL_V(
                 http_connection->http_settings->on_location,
@@ -348,6 +361,7 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
                 index,
                 virtual_url_offset
             );
+            if(virtual_url_offset > data_size) { virtual_url_offset = data_size; }
             CALL_V(
                 http_connection->http_settings->on_virtual_url,
                 http_parser,
-- 
2.43.0


From 8be1b7b14726ec6bc2c618ad45890171416c1b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:27 +0000
Subject: [PATCH 09/96] fix: never consider malformed credentials as valid in
 the basic authentication

---
 src/viriatum/http/http_util.c           | 24 +++++++++++++++++++++++-
 src/viriatum_commons/encoding/base_64.c | 13 ++++++++++++-
 src/viriatum_commons/formats/passwd.c   | 13 ++++++++++---
 3 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index fffcfc3..72e9902 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -563,6 +563,10 @@ ERROR_CODE auth_file_http(char *auth_file, char *authorization, unsigned char *r
     size_t username_size;
     size_t password_size;
 
+    /* starts the result as not authenticated, a value that is not
+    possible to be processed must never be considered as valid */
+    *result = FALSE;
+
     /* tries to find the token that separates the authentication
     type from the authorization base 64 value in case the value
     is not found raises an error indicating the problem */
@@ -609,6 +613,17 @@ ERROR_CODE auth_file_http(char *auth_file, char *authorization, unsigned char *r
     username_size = password_pointer - authorization_d - 1;
     password_size = authorization_d + authorization_size - password_pointer;
 
+    /* verifies that both the username and the password values fit in
+    the internal buffers and that they are valid (complete) strings */
+    if(username_size >= sizeof(username) || password_size >= sizeof(password) ||
+        memchr(authorization_d, '\0', authorization_size) != NULL) {
+        FREE(authorization_d);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Username or password not valid"
+        );
+    }
+
     /* copies both the username and the password values to
     the apropriate internal buffers (to be used in comparision) */
     memcpy(username, authorization_d, username_size);
@@ -619,7 +634,14 @@ ERROR_CODE auth_file_http(char *auth_file, char *authorization, unsigned char *r
     /* processes the passwd file using the provided file path
     for it, this is an expensive io driven operation, and must
     be used wth care */
-    process_passwd_file(auth_file, &passwd);
+    return_value = process_passwd_file(auth_file, &passwd);
+    if(IS_ERROR_CODE(return_value)) {
+        FREE(authorization_d);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem processing the passwd file"
+        );
+    }
 
     /* retrieves the password verification value for the
     retrieved username and in case it's valid compares it
diff --git a/src/viriatum_commons/encoding/base_64.c b/src/viriatum_commons/encoding/base_64.c
index 4913570..8cdd641 100644
--- a/src/viriatum_commons/encoding/base_64.c
+++ b/src/viriatum_commons/encoding/base_64.c
@@ -63,7 +63,18 @@ ERROR_CODE decode_base64(
     size_t *decoded_buffer_length_pointer
 ) {
     /* retrieves the padding count from the encoded buffer */
-    unsigned int padding_count = _get_padding_count(encoded_buffer, encoded_buffer_length);
+    unsigned int padding_count;
+
+    /* in case the encoded buffer is not composed by complete groups
+    of four characters it's not possible to decode it */
+    if(encoded_buffer_length % 4 != 0) {
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Invalid base 64 length");
+    }
+    padding_count = encoded_buffer_length == 0 ? 0 :\
+        _get_padding_count(encoded_buffer, encoded_buffer_length);
+    if(padding_count > 2) {
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Invalid base 64 padding");
+    }
 
     /* allocates the decoded buffer according to the pre-defined
     rules and then assigns the decoded buffer length */
diff --git a/src/viriatum_commons/formats/passwd.c b/src/viriatum_commons/formats/passwd.c
index 6bedccf..5b2e94f 100644
--- a/src/viriatum_commons/formats/passwd.c
+++ b/src/viriatum_commons/formats/passwd.c
@@ -67,6 +67,7 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
     provided path an in case an error occurs re-raises it */
     return_value = read_file(file_path, &buffer, &size);
     if(IS_ERROR_CODE(return_value)) {
+        delete_hash_map(passwd);
         RAISE_ERROR_F(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem reading file %s",
@@ -81,10 +82,11 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
 
     /* iterates over the buffer contents in its range to parse
     it and populate the passwd hash map structure */
-    for(index = 0; index < size; index++) {
+    for(index = 0; index <= size; index++) {
         /* retrieves the current byte in iteration and the pointer
-        address to the current buffer position */
-        current = buffer[index];
+        address to the current buffer position, note that the end of
+        the file is considered to be the end of the current line */
+        current = index < size ? buffer[index] : '\n';
         pointer = &buffer[index];
 
         /* switches over the current state to operate over the current
@@ -95,6 +97,11 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
                     case ':':
                     case '\n':
                         length = pointer - mark;
+                        if(length >= sizeof(username)) {
+                            mark = pointer + 1;
+                            state = current == ':' ? PASSWD_COMMENT : PASSWD_USER;
+                            break;
+                        }
                         memcpy(username, mark, length);
                         username[length] = '\0';
                         mark = pointer + 1;
-- 
2.43.0


From c9daec0c3ac6beec233f5d002f7c1122f22ac320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:26 +0000
Subject: [PATCH 10/96] fix: handle files that disappear, shrink or are not
 possible to be read while being served

---
 src/viriatum/handlers/handler_file.c | 12 ++++++++++++
 src/viriatum_commons/io/file.c       | 15 ++++++++++-----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index 96bc7db..6d61560 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -1188,6 +1188,14 @@ ERROR_CODE _send_chunk_handler_file(struct connection_t *connection, struct data
         that the proper encoding is set for the path */
         open_file((char *) file_path, "rb", &file);
 
+        /* in case the file is no longer available it's not possible
+        to send its contents and so the connection must be closed in
+        order to notify the client about the problem */
+        if(file == NULL) {
+            handler_file_context->flags &= ~FLAG_KEEP_ALIVE;
+            return _cleanup_handler_file(connection, data, parameters);
+        }
+
         /* seeks to the end of the file and then to the
         beginig in order to correctly retrieve the size
         of the current file for reading */
@@ -1236,6 +1244,10 @@ ERROR_CODE _send_chunk_handler_file(struct connection_t *connection, struct data
         /* unsets the file from the handler file context */
         handler_file_context->file = NULL;
 
+        /* in case there are bytes missing (file has been truncated) the
+        response is not complete and the connection must be closed */
+        if(remaining > 0) { handler_file_context->flags &= ~FLAG_KEEP_ALIVE; }
+
         /* runs the cleanup handler file (releases internal structures) */
         _cleanup_handler_file(connection, data, parameters);
 
diff --git a/src/viriatum_commons/io/file.c b/src/viriatum_commons/io/file.c
index 0a1e0a3..1e602d4 100644
--- a/src/viriatum_commons/io/file.c
+++ b/src/viriatum_commons/io/file.c
@@ -96,11 +96,13 @@ ERROR_CODE read_file(char *file_path, unsigned char **buffer_pointer, size_t *fi
     /* allocates space for the file buffer and then stores the
     complete set of contents from the file in it */
     file_buffer = (unsigned char *) MALLOC(file_size);
-    number_bytes = fread(file_buffer, 1, file_size, file);
+    number_bytes = file_buffer == NULL ? 0 : fread(file_buffer, 1, file_size, file);
 
     /* in case the number of read bytes is not the
     same as the total bytes in file (error) */
     if(number_bytes != file_size) {
+        fclose(file);
+        FREE(file_buffer);
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem reading from file"
@@ -736,8 +738,12 @@ ERROR_CODE get_write_time_file(char *file_path, struct date_time_t *date_time) {
     struct stat file_stat;
     struct tm time;
 
-    stat(file_path, &file_stat);
-
+    if(stat(file_path, &file_stat) != 0) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem retrieving file time"
+        );
+    }
     gmtime_r((const time_t *) &file_stat.st_mtime, &time);
 
     /* populates the date time structure with the information
@@ -850,8 +856,7 @@ ERROR_CODE list_directory_file(char *file_path, struct linked_list_t *entries) {
         the entry stat structure and then uses it to retrieve its size
         and it's last write time */
         join_path_file(file_path, entity->d_name, entry_full_name);
-        stat(entry_full_name, &entry_stat);
-        entry->size = entry_stat.st_size;
+        entry->size = stat(entry_full_name, &entry_stat) == 0 ? entry_stat.st_size : 0;
         get_write_time_file(entry_full_name, &entry->time);
 
         /* calculates the length of the entry name and uses
-- 
2.43.0


From f7addd28dbdc3ce78f791157759a6a8aaf22c99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 11/96] fix: parse chunked requests and refuse lengths that are
 not possible to be represented

---
 src/viriatum/http/http_parser.c | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index d24946e..9629b91 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -27,6 +27,8 @@
 
 #include "stdafx.h"
 
+#include <limits.h>
+
 #include "http_parser.h"
 
 int http_should_keep_alive(struct http_parser_t *http_parser) {
@@ -1387,6 +1389,10 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                             goto error;
                         }
 
+                        if(http_parser->content_length > (INT_MAX - 9) / 10) {
+                            goto error;
+                        }
+
                         http_parser->content_length *= 10;
                         http_parser->content_length += byte - '0';
 
@@ -1512,9 +1518,8 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
 
                     read_count = 0;
 
-                    if(http_parser->flags & FLAG_UPGRADE || http_parser->method == HTTP_CONNECT) {
-                        http_parser->upgrade = 1;
-                    }
+                    http_parser->upgrade = http_parser->flags & FLAG_UPGRADE ||
+                        http_parser->method == HTTP_CONNECT;
 
                     /* here we call the headers_complete callback, this is somewhat
                     * different than other callbacks because if the user returns 1, we
@@ -1537,14 +1542,10 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                         }
                     }
 
-                    /* Exit, the rest of the connect is in a different protocol. */
-                    if(http_parser->upgrade) {
-                        HTTP_CALLBACK(message_complete);
-
-                        return (int) (pointer - data) + 1;
-                    }
-
-                    if(http_parser->flags & FLAG_SKIPBODY) {
+                    /* an upgrade is never accepted by the handlers and so the message
+                    is framed as any other, the connect one has no contents */
+                    if(http_parser->flags & FLAG_SKIPBODY || (http_parser->type == HTTP_REQUEST &&
+                        http_parser->method == HTTP_CONNECT)) {
                         HTTP_CALLBACK(message_complete);
                         state = NEW_MESSAGE();
                         parse_count++;
@@ -1621,10 +1622,9 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                 break;
 
             case STATE_CHUNK_SIZE_START:
-                assert(read_count == 1);
                 assert(http_parser->flags & FLAG_CHUNKED);
 
-                unhex_value = unhex[byte];
+                unhex_value = byte < 128 ? unhex[byte] : -1;
 
                 if(unhex_value == -1) {
                     /*SET_ERRNO(HPE_INVALID_CHUNK_SIZE);*/
@@ -1647,7 +1647,7 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                     break;
                 }
 
-                unhex_value = unhex[byte];
+                unhex_value = byte < 128 ? unhex[byte] : -1;
 
                 if(unhex_value == -1) {
                     if(byte == ';' || byte == ' ') {
@@ -1661,6 +1661,10 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                     goto error;
                 }
 
+                if(http_parser->content_length > (INT_MAX - 15) / 16) {
+                    goto error;
+                }
+
                 http_parser->content_length *= 16;
                 http_parser->content_length += unhex_value;
 
-- 
2.43.0


From 6aebb51167b477a83248a94897f6f0b326499ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 12/96] fix: keep the marks of the parser valid and release the
 data of the requests already handled

---
 src/viriatum/stream/stream_http.c | 96 +++++++++++++++++--------------
 1 file changed, 52 insertions(+), 44 deletions(-)

diff --git a/src/viriatum/stream/stream_http.c b/src/viriatum/stream/stream_http.c
index 9a71ab9..09b0f5d 100644
--- a/src/viriatum/stream/stream_http.c
+++ b/src/viriatum/stream/stream_http.c
@@ -200,15 +200,13 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
     struct connection_t *connection = io_connection->connection;
     struct http_connection_t *http_connection = (struct http_connection_t *) io_connection->lower;
 
-    /* retrieves the content length value from the parser associated
-    with the current connection, this value is maitained accross multiple
-    parsing loops and is not considered transient, the value remains at the
-    initial zero value until the proper header is parsed */
-    size_t content_length = http_connection->http_parser->_content_length;
+    /* retrieves the reference to the parser associated with the current
+    connection, it may contain pointers (marks) to the connection buffer */
+    struct http_parser_t *http_parser = http_connection->http_parser;
 
     /* in case no HTTP connection buffer is currently set, time to start
     a new one from the provided buffer (fast access) */
-    if(http_connection->buffer == NULL) {
+    if(http_connection->buffer == NULL && buffer_size > 0) {
         http_connection->buffer_size = buffer_size;
         http_connection->buffer = (unsigned char *) MALLOC(http_connection->buffer_size);
     }
@@ -218,29 +216,46 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
     else if(http_connection->buffer_offset + buffer_size > http_connection->buffer_size) {
         /* creates two strategies for the reallocation of the buffer, one based on the
         minimal size required for the handling the memory copy (offset strategy) and
-        another that aims at pre-allocating size for the complete message buffer (content
-        length strategy) the maximum value of both is selected as the new buffer size
-        and is used for the reallocation of the buffer */
+        another that aims at avoiding too many reallocations (size strategy) the maximum
+        value of both is selected as the new buffer size and is used for the reallocation */
         size_offset = http_connection->buffer_offset + buffer_size;
-        size_length = http_connection->buffer_size + content_length;
+        size_length = http_connection->buffer_size * 2;
         http_connection->buffer_size = size_length > size_offset ? size_length : size_offset;
-        http_connection->buffer = REALLOC(
-            (void *) http_connection->buffer,
-            http_connection->buffer_size
-        );
+        _buffer = http_connection->buffer;
+        http_connection->buffer = MALLOC(http_connection->buffer_size);
+        memcpy(http_connection->buffer, _buffer, http_connection->buffer_offset);
+
+        /* updates the marks of the parser so that they refer the same position
+        in the new buffer and then releases the previous buffer */
+        if(http_parser->header_field_mark) {
+            http_parser->header_field_mark = http_connection->buffer + (http_parser->header_field_mark - _buffer);
+        }
+        if(http_parser->header_value_mark) {
+            http_parser->header_value_mark = http_connection->buffer + (http_parser->header_value_mark - _buffer);
+        }
+        if(http_parser->url_mark) {
+            http_parser->url_mark = http_connection->buffer + (http_parser->url_mark - _buffer);
+        }
+        FREE(_buffer);
     }
 
     /* retrieves the pointer reference to the current position in the
     buffer to be used for writing then copies the current buffer data
     into it and updates the buffer size */
-    _buffer = http_connection->buffer + http_connection->buffer_offset;
-    memcpy(_buffer, buffer, buffer_size);
-    http_connection->buffer_offset += buffer_size;
+    if(buffer_size > 0) {
+        _buffer = http_connection->buffer + http_connection->buffer_offset;
+        memcpy(_buffer, buffer, buffer_size);
+        http_connection->buffer_offset += buffer_size;
+    }
 
     /* iterates continuously, this allows the stream handler
     to split the stream into possible multiple messages, usefull
     for HTTP pipelining (multiple sequenced requests) */
     while(TRUE) {
+        /* in case there's no more data to be processed, all of the
+        messages in the buffer have been handled */
+        if(http_connection->read_offset == http_connection->buffer_offset) { break; }
+
         /* retrieves the pointer to the read position as the connection buffer
         added to the read offset and then retrieves the current size for reading
         by removing the read offset from the buffer offset (must deduct the already
@@ -289,31 +304,19 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
         /* in case the current state in the HTTP parser is the
         start state, the message is considered to be completly
         parsed (new message may come after) */
-        if(http_connection->http_parser->state == STATE_START_RES) {
-            /* resets the HTTP parser state */
-            http_connection->http_parser->type = 2;
-            http_connection->http_parser->flags = 6;
-            http_connection->http_parser->state = STATE_START_REQ;
-            http_connection->http_parser->header_state = 0;
-            http_connection->http_parser->read_count = 0;
-            http_connection->http_parser->content_length = -1;
-            http_connection->http_parser->http_major = 0;
-            http_connection->http_parser->http_minor = 0;
-            http_connection->http_parser->status_code = 0;
-            http_connection->http_parser->method = 0;
-            http_connection->http_parser->upgrade = 0;
-            http_connection->http_parser->_content_length = 0;
-
-            /* resets the internal parser state values */
-            http_connection->http_parser->header_field_mark = 0;
-            http_connection->http_parser->header_value_mark = 0;
-            http_connection->http_parser->url_mark = 0;
+        if(http_parser->state == STATE_START_REQ) {
+            /* resets the internal parser state values that are
+            not reset by the parser at the start of a message */
+            http_parser->_content_length = 0;
+            http_parser->header_field_mark = 0;
+            http_parser->header_value_mark = 0;
+            http_parser->url_mark = 0;
 
             /* in case the current HTTP connection read offset has reached
-            the buffer size it's time to reset the buffer (no more data to
-            be processed), the buffer size should come from the content length
-            value of the actual message */
-            if(http_connection->read_offset == http_connection->buffer_size) {
+            the buffer offset it's time to reset the buffer (no more data to
+            be processed), otherwise only the data that was already processed
+            is removed from the buffer */
+            if(http_connection->read_offset == http_connection->buffer_offset) {
                 /* releases the current HTTP connection buffer and then
                 unsets the buffer from the connection and updates the size
                 of it to the initial empty value (buffer reset) */
@@ -322,13 +325,18 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
                 http_connection->buffer_size = 0;
                 http_connection->buffer_offset = 0;
                 http_connection->read_offset = 0;
+                break;
+            } else {
+                http_connection->buffer_offset -= http_connection->read_offset;
+                memmove(
+                    http_connection->buffer,
+                    http_connection->buffer + http_connection->read_offset,
+                    http_connection->buffer_offset
+                );
+                http_connection->read_offset = 0;
             }
         }
 
-        /* in case all the data has been read from the connection
-        buffer must break the loop */
-        if(http_connection->read_offset == http_connection->buffer_size) { break; }
-
         /* in case all the remaining data has been processed
         no need to process more HTTP data (breaks the loop) */
         if(processed_size == 0 || (size_t) processed_size == _read_size) { break; }
-- 
2.43.0


From c193009d767bb0efb067888ce1e4609a6bfdcfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:14 +0000
Subject: [PATCH 13/96] fix: do not send contents in the responses to HEAD
 requests

---
 .../mod_diag/src/viriatum_mod_diag/module/handler.c |  6 ++++--
 .../mod_gif/src/viriatum_mod_gif/module/handler.c   |  6 ++++--
 src/viriatum/handlers/handler_file.c                |  8 ++++++--
 src/viriatum/http/http_util.c                       | 13 +++++++++++--
 4 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/modules/mod_diag/src/viriatum_mod_diag/module/handler.c b/modules/mod_diag/src/viriatum_mod_diag/module/handler.c
index c833e36..f34b826 100644
--- a/modules/mod_diag/src/viriatum_mod_diag/module/handler.c
+++ b/modules/mod_diag/src/viriatum_mod_diag/module/handler.c
@@ -142,8 +142,10 @@ ERROR_CODE _send_response_handler_diag(struct http_parser_t *http_parser) {
         CONTENT_TYPE_H ": %s\r\n\r\n",
         "application/json"
     );
-    memcpy(&buffer[count], info, info_size);
-    count += info_size;
+    if(http_parser->method != HTTP_HEAD) {
+        memcpy(&buffer[count], info, info_size);
+        count += info_size;
+    }
 
     /* writes the response to the connection, this will write the
     complete message to the connection, upon finishing the sent operation
diff --git a/modules/mod_gif/src/viriatum_mod_gif/module/handler.c b/modules/mod_gif/src/viriatum_mod_gif/module/handler.c
index f0bb13b..cd8b44f 100644
--- a/modules/mod_gif/src/viriatum_mod_gif/module/handler.c
+++ b/modules/mod_gif/src/viriatum_mod_gif/module/handler.c
@@ -103,8 +103,10 @@ ERROR_CODE _send_response_handler_gif(struct http_parser_t *http_parser) {
         CONTENT_TYPE_H ": %s\r\n\r\n",
         "image/gif"
     );
-    memcpy(&buffer[count], _empty_gif, _empty_gif_size);
-    count += _empty_gif_size;
+    if(http_parser->method != HTTP_HEAD) {
+        memcpy(&buffer[count], _empty_gif, _empty_gif_size);
+        count += _empty_gif_size;
+    }
 
     /* writes the response to the connection, this will write the
     complete message to the connection, upon finishing the sent operation
diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index 6d61560..d3c8ad7 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -809,6 +809,10 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
             TRUE
         );
 
+        /* in case this is an head request no contents should be sent
+        and so the contents are considered to be already flushed */
+        if(http_parser->method == HTTP_HEAD) { handler_file_context->flushed = TRUE; }
+
         /* writes both the headers to the connection, register
         for the appropriate callbacks */
         write_connection(
@@ -892,7 +896,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
             connection,
             (unsigned char *) headers_buffer,
             (unsigned int) strlen(headers_buffer),
-            _send_chunk_handler_file,
+            http_parser->method == HTTP_HEAD ? _cleanup_handler_file : _send_chunk_handler_file,
             handler_file_context
         );
     }
@@ -949,7 +953,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
             connection,
             (unsigned char *) headers_buffer,
             (unsigned int) strlen(headers_buffer),
-            _send_chunk_handler_file,
+            http_parser->method == HTTP_HEAD ? _cleanup_handler_file : _send_chunk_handler_file,
             handler_file_context
         );
     }
diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index 72e9902..7066ba3 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -29,6 +29,14 @@
 
 #include "http_util.h"
 
+/* verifies if the request that is currently being handled in the
+connection uses the head method, its response has no contents */
+static int _is_head(struct connection_t *connection) {
+    struct io_connection_t *io_connection = (struct io_connection_t *) connection->lower;
+    struct http_connection_t *http_connection = (struct http_connection_t *) io_connection->lower;
+    return http_connection->http_parser->method == HTTP_HEAD;
+}
+
 size_t write_http_headers(
     struct connection_t *connection,
     char *buffer, size_t size,
@@ -170,7 +178,8 @@ size_t write_http_headers_m(
         cache,
         TRUE
     );
-    memcpy(&buffer[count], message, content_length + 1);
+    if(_is_head(connection)) { buffer[count] = '\0'; }
+    else { memcpy(&buffer[count], message, content_length + 1); }
 
     /* returns the number of bytes written into the buffer */
     return count;
@@ -360,7 +369,7 @@ ERROR_CODE write_http_error_a(
         the headers and then the resulting contents from the template handler */
         create_string_buffer(&string_buffer);
         append_string_buffer(string_buffer, (unsigned char *) headers_buffer);
-        append_string_buffer(string_buffer, template_handler->string_value);
+        if(!_is_head(connection)) { append_string_buffer(string_buffer, template_handler->string_value); }
         join_string_buffer(string_buffer, &result_buffer);
         result_length = string_buffer->string_length;
         delete_string_buffer(string_buffer);
-- 
2.43.0


From 7b5665c8e1cd5040c7ffdeb22e98b11600c3b46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 14/96] fix: do not overflow the extension buffer when guessing
 the mime type of a file

---
 src/viriatum/system/service.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index f355764..e333434 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -2302,6 +2302,11 @@ const char *_get_mime_type_service(struct service_t *service, char *extension) {
     char extension_l[VIRIATUM_MAX_EXTENSION_SIZE];
     size_t extension_s = strlen(extension);
     struct service_options_t *service_options = service->options;
+
+    /* in case the extension does not fit the buffer that is going to
+    hold it (no known extension is that long) returns an unset value */
+    if(extension_s >= sizeof(extension_l)) { return NULL; }
+
     memcpy(extension_l, extension, extension_s);
     extension_l[extension_s] = '\0';
     lowercase(extension_l);
-- 
2.43.0


From 639af1b098b051a62b4c841e3bab61ffef829d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:36 +0000
Subject: [PATCH 15/96] fix: do not lose the entries of hash maps whose keys
 share the same hash

---
 src/viriatum_commons/structures/hash_map.c | 32 ++++++++++++----------
 src/viriatum_commons/structures/hash_map.h |  1 +
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/viriatum_commons/structures/hash_map.c b/src/viriatum_commons/structures/hash_map.c
index e966013..c597e70 100644
--- a/src/viriatum_commons/structures/hash_map.c
+++ b/src/viriatum_commons/structures/hash_map.c
@@ -143,6 +143,14 @@ void set_value_string_hash_map(struct hash_map_t *hash_map, unsigned char *key_s
     set_value_hash_map(hash_map, key, key_string, value);
 }
 
+char _match_key_string_hash_map(struct hash_map_element_t *element, unsigned char *key_string) {
+    /* an unset key string matches any element, otherwise both of
+    the strings must be set and have the same contents */
+    if(key_string == NULL) { return TRUE; }
+    if(element->key_string == NULL) { return FALSE; }
+    return strcmp((char *) element->key_string, (char *) key_string) == 0;
+}
+
 void get_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char *key_string, struct hash_map_element_t **element_pointer) {
     /* allocates space for the hash map element to be used */
     struct hash_map_element_t *element;
@@ -168,7 +176,7 @@ void get_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char *key_st
         requested (element found) note that an extra
         verification is done to make sure that in case
         a string key is specified it also matches */
-        if(element->key == key && (key_string == NULL || strcmp((char *) element->key_string, (char *) key_string) == 0)) {
+        if(element->key == key && _match_key_string_hash_map(element, key_string)) {
             /* breaks the loop */
             break;
         }
@@ -391,10 +399,15 @@ void _set_value_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char
         element = &hash_map->elements_buffer[index];
 
         /* in case the element is empty or the
-        key is the same (overwrite) */
-        if(element->used == 0 || element->key == key) {
-            /* breaks the loop */
-            break;
+        key is the same (overwrite), notice that different
+        string keys may share the same (hash) key and that the
+        elements of a resize operation are always different */
+        if(element->used == 0) { break; }
+        if(copy == TRUE && element->key == key && _match_key_string_hash_map(element, key_string)) {
+            /* updates only the value of the element, as the key of
+            it remains the same, and returns immediately */
+            element->value = value;
+            return;
         }
 
         /* in case the index value is "normal"
@@ -411,15 +424,6 @@ void _set_value_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char
         }
     }
 
-    /* in case the key string is already defined in the
-    element (must release it properly) unsets it */
-    if(element->key_string != NULL) {
-        /* releases the key string memory (avoids memory leak)
-        and then unsets the key string reference in the element */
-        FREE(element->key_string);
-        element->key_string = NULL;
-    }
-
     /* sets the element fields */
     element->value = value;
     element->key = key;
diff --git a/src/viriatum_commons/structures/hash_map.h b/src/viriatum_commons/structures/hash_map.h
index 01ef3cb..43cd92a 100644
--- a/src/viriatum_commons/structures/hash_map.h
+++ b/src/viriatum_commons/structures/hash_map.h
@@ -76,6 +76,7 @@ VIRIATUM_EXPORT_PREFIX void delete_iterator_hash_map(struct hash_map_t *hash_map
 VIRIATUM_EXPORT_PREFIX void reset_iterator_hash_map(struct hash_map_t *hash_map, struct iterator_t *iterator);
 VIRIATUM_EXPORT_PREFIX void get_next_iterator_hash_map(struct iterator_t *iterator, void **next_pointer);
 VIRIATUM_EXPORT_PREFIX void get_next_element_iterator_hash_map(struct iterator_t *iterator, void **next_pointer);
+VIRIATUM_EXPORT_PREFIX char _match_key_string_hash_map(struct hash_map_element_t *element, unsigned char *key_string);
 VIRIATUM_EXPORT_PREFIX void _set_value_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char *key_string, void *value, char copy);
 VIRIATUM_EXPORT_PREFIX void _resize_hash_map(struct hash_map_t *hash_map);
 VIRIATUM_EXPORT_PREFIX size_t _calculate_string_hash_map(unsigned char *key_string);
-- 
2.43.0


From 12516c89683241cfa7b76fd8d70e18c7c395fe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:36 +0000
Subject: [PATCH 16/96] fix: keep one single position per key in sort maps

---
 src/viriatum_commons/structures/sort_map.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/viriatum_commons/structures/sort_map.c b/src/viriatum_commons/structures/sort_map.c
index f447289..7f901cc 100644
--- a/src/viriatum_commons/structures/sort_map.c
+++ b/src/viriatum_commons/structures/sort_map.c
@@ -58,8 +58,16 @@ void delete_sort_map(struct sort_map_t *sort_map) {
 
 void set_value_sort_map(struct sort_map_t *sort_map, size_t key, unsigned char *key_string, void *value) {
     struct hash_map_element_t *element;
+    char exists;
+
+    /* verifies if the key already exists in the map, in such case
+    only the value changes (the position of the key is kept) */
+    get_hash_map(sort_map->hash_map, key, key_string, &element);
+    exists = element->used == 1;
 
     set_value_hash_map(sort_map->hash_map, key, key_string, value);
+    if(exists) { return; }
+
     get_hash_map(sort_map->hash_map, key, key_string, &element);
     append_value_linked_list(sort_map->key_list, (void *) key);
     append_value_linked_list(sort_map->key_string_list, (void *) element->key_string);
-- 
2.43.0


From dee45f945f523b58def0a0b3b5b6d318b94a2a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:36 +0000
Subject: [PATCH 17/96] fix: do not keep references to the removed nodes when
 clearing linked lists

---
 src/viriatum_commons/structures/linked_list.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/viriatum_commons/structures/linked_list.c b/src/viriatum_commons/structures/linked_list.c
index 2c3e233..3c19a5f 100644
--- a/src/viriatum_commons/structures/linked_list.c
+++ b/src/viriatum_commons/structures/linked_list.c
@@ -130,6 +130,8 @@ void clear_linked_list(struct linked_list_t *linked_list) {
     /* resets the linked list size to the original
     empty value of zero */
     linked_list->size = 0;
+    linked_list->first = NULL;
+    linked_list->last = NULL;
 }
 
 void append_linked_list(struct linked_list_t *linked_list, struct linked_list_node_t *linked_list_node) {
-- 
2.43.0


From c15707b33633f5d648d974cfe1acdcda3995c7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:36 +0000
Subject: [PATCH 18/96] fix: address the elements of array lists by their size
 in bytes

---
 src/viriatum_commons/structures/array_list.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/structures/array_list.c b/src/viriatum_commons/structures/array_list.c
index dce5ad0..28c118c 100644
--- a/src/viriatum_commons/structures/array_list.c
+++ b/src/viriatum_commons/structures/array_list.c
@@ -71,7 +71,7 @@ void set_array_list(struct array_list_t *array_list, size_t index, void *element
     size_t base_index = array_list->element_size * index;
 
     /* retrieves the base address value */
-    void *base_address = &array_list->elements_buffer[base_index];
+    void *base_address = (char *) array_list->elements_buffer + base_index;
 
     /* copies the element to the array list
     elements buffer, using the element size */
@@ -83,7 +83,7 @@ void get_array_list(struct array_list_t *array_list, size_t index, void **elemen
     size_t base_index = array_list->element_size * index;
 
     /* retrieves the element from the element buffer */
-    void *element = &array_list->elements_buffer[base_index];
+    void *element = (char *) array_list->elements_buffer + base_index;
 
     /* sets the element in the element pointer */
     *element_pointer = element;
-- 
2.43.0


From 1b614cf1d09cb5b6907e651c1cf9fc243b9498d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 19/96] fix: do not underflow the size of priority queues when
 popping from empty ones

---
 src/viriatum_commons/structures/priority_queue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum_commons/structures/priority_queue.c b/src/viriatum_commons/structures/priority_queue.c
index dadb1cd..222d1cf 100644
--- a/src/viriatum_commons/structures/priority_queue.c
+++ b/src/viriatum_commons/structures/priority_queue.c
@@ -106,5 +106,5 @@ void pop_priority_queue(struct priority_queue_t *priority_queue, void **value_po
     /* pops a value from the underlying list directly to the value pointer
     and then decrements the size of the current priority queue */
     pop_value_linked_list(priority_queue->list, value_pointer, TRUE);
-    priority_queue->size--;
+    priority_queue->size = priority_queue->list->size;
 }
-- 
2.43.0


From ea2e8baa8a43a65137c972d4a790fd8c2227d8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 20/96] fix: refuse the credentials of locations without an
 authentication file

---
 src/viriatum/http/http_util.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index 7066ba3..3455c9c 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -532,7 +532,13 @@ ERROR_CODE log_http_request(char *host, char *identity, char *user, char *method
 }
 
 ERROR_CODE auth_http(char *auth_file, char *authorization, unsigned char *result) {
-    unsigned char is_default = strcmp(auth_file, "$default") == 0 ? TRUE : FALSE;
+    unsigned char is_default;
+
+    /* in case there's no authentication file there are also no
+    credentials that may be considered valid */
+    if(auth_file == NULL) { *result = FALSE; RAISE_NO_ERROR; }
+
+    is_default = strcmp(auth_file, "$default") == 0 ? TRUE : FALSE;
     if(is_default) { auth_default_http(auth_file, authorization, result); }
     else { auth_file_http(auth_file, authorization, result); }
     RAISE_NO_ERROR;
-- 
2.43.0


From f01f5154fda8731f75eb8750936039d85f76f203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:07 +0000
Subject: [PATCH 21/96] fix: refuse percent sequences that are not complete and
 hexadecimal

---
 src/viriatum_commons/encoding/percent.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/encoding/percent.c b/src/viriatum_commons/encoding/percent.c
index 77cb449..866b32e 100644
--- a/src/viriatum_commons/encoding/percent.c
+++ b/src/viriatum_commons/encoding/percent.c
@@ -99,14 +99,16 @@ ERROR_CODE decode_percent(unsigned char *buffer, size_t length, unsigned char *_
         /* in case the current pointer value refers a value
         that is the start character for a special value */
         if(*pointer == '%') {
-            if(pointer[1] && pointer[2]) {
+            if(length - (size_t) (pointer - buffer) > 2 && isxdigit(pointer[1]) && isxdigit(pointer[2])) {
                 /* converts the character using the hexadecimal value
                 from it and then increments the current buffer pointer
                 by a value of two (buffer advancing) */
                 *__buffer++ = from_hex(pointer[1]) << 4 | from_hex(pointer[2]);
                 pointer += 2;
             } else {
-                /* raises an error */
+                /* closes the decoded string and raises an error */
+                *__buffer = '\0';
+                *length_pointer = __buffer - _buffer;
                 RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem decoding URL string");
             }
         }
-- 
2.43.0


From afd7be5abcaf023b2582f3724112654bd516beb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:45 +0000
Subject: [PATCH 22/96] fix: end the service when the signal arrives right
 before waiting for events

---
 src/viriatum/polling/polling_epoll.c | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index bb1c2f3..eba64fd 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -457,24 +457,15 @@ ERROR_CODE _poll_polling_epoll(
 
     /* runs the wait process in the epoll, this is the main call
     of the epoll loop as it is the one responsible for the polling
-    operation and generation of the events, note that the embed
-    version of the call is managed by a timeout so that the event
-    loop does not block (the normal version is unblocked by signals) */
-#ifdef VIRIATUM_EMBED
+    operation and generation of the events, note that the call is
+    managed by a timeout so that the event loop does not block, as a
+    signal that is received right before it is not able to unblock it */
     event_count = epoll_wait(
         polling_epoll->epoll_fd,
         events,
         VIRIATUM_MAX_EVENTS,
         VIRIATUM_SELECT_TIMEOUT * 1000
     );
-#else
-    event_count = epoll_wait(
-        polling_epoll->epoll_fd,
-        events,
-        VIRIATUM_MAX_EVENTS,
-        -1
-    );
-#endif
 
     /* prints a debug message */
     V_DEBUG_F("Exiting epoll statement with value: %d\n", event_count);
-- 
2.43.0


From 328f8cd18a7c14ec24cbf9ff16b73e7dd9740346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:00 +0000
Subject: [PATCH 23/96] fix: include the authentication challenge in the error
 responses made without templates

---
 src/viriatum/http/http_util.c | 51 ++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index 3455c9c..d29bf55 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -406,19 +406,44 @@ ERROR_CODE write_http_error_a(
         );
 
         /* writes the HTTP static headers to the response and
-        then writes the error description itself */
-        write_http_headers_m(
-            connection,
-            headers_buffer,
-            size,
-            version,
-            error_code,
-            error_message,
-            keep_alive,
-            strlen(_error_description),
-            NO_CACHE,
-            _error_description
-        );
+        then writes the error description itself, note that the
+        challenge is included in case there's a realm defined */
+        if(realm == NULL) {
+            write_http_headers_m(
+                connection,
+                headers_buffer,
+                size,
+                version,
+                error_code,
+                error_message,
+                keep_alive,
+                strlen(_error_description),
+                NO_CACHE,
+                _error_description
+            );
+        } else {
+            result_length = write_http_headers_a(
+                connection,
+                headers_buffer,
+                size,
+                version,
+                error_code,
+                error_message,
+                keep_alive,
+                strlen(_error_description),
+                NO_CACHE,
+                realm,
+                TRUE
+            );
+            if(!_is_head(connection)) {
+                SPRINTF(
+                    &headers_buffer[result_length],
+                    size - result_length,
+                    "%s",
+                    _error_description
+                );
+            }
+        }
 
         /* writes both the headers to the connection, an then
         registers for the appropriate callbacks */
-- 
2.43.0


From a4842b76e8576017dfc56feeb7b114fb0f5ba8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:24 +0000
Subject: [PATCH 24/96] fix: compare the complete names of the headers handled
 by the file handler

---
 src/viriatum/handlers/handler_file.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index d3c8ad7..83acf33 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -374,7 +374,7 @@ ERROR_CODE header_field_callback_handler_file(struct http_parser_t *http_parser,
     that was provided (used for faster parsing) */
     switch(data_size) {
         case 5:
-            if(data[0] == 'R' && data[1] == 'a' && data[2] == 'n' && data[3] == 'g') {
+            if(memcmp(data, "Range", data_size) == 0) {
                 /* updates the range status value, it's the next
                 value to be parsed and put in context */
                 handler_file_context->range_status = 1;
@@ -387,7 +387,7 @@ ERROR_CODE header_field_callback_handler_file(struct http_parser_t *http_parser,
             break;
 
         case 13:
-            if(data[0] == 'I' && data[1] == 'f' && data[2] == '-' && data[3] == 'N') {
+            if(memcmp(data, "If-None-Match", data_size) == 0) {
                 /* updates the etag status value, it's the next
                 value to be parsed and put in context */
                 handler_file_context->etag_status = 1;
@@ -395,7 +395,7 @@ ERROR_CODE header_field_callback_handler_file(struct http_parser_t *http_parser,
                 break;
             }
 
-            if(data[0] == 'C' && data[1] == 'a' && data[2] == 'c' && data[3] == 'h') {
+            if(memcmp(data, "Cache-Control", data_size) == 0) {
                 /* updates the cache control status value, it's the next
                 value to be parsed and put in context */
                 handler_file_context->cache_control_status = 1;
@@ -403,7 +403,7 @@ ERROR_CODE header_field_callback_handler_file(struct http_parser_t *http_parser,
                 break;
             }
 
-            if(data[0] == 'A' && data[1] == 'u' && data[2] == 't' && data[3] == 'h') {
+            if(memcmp(data, "Authorization", data_size) == 0) {
                 /* updates the authorization status value, it's the next
                 value to be parsed and put in context */
                 handler_file_context->authorization_status = 1;
-- 
2.43.0


From 1592e0b824828b0bb08dc3037f03ced6a68a3242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:22 +0000
Subject: [PATCH 25/96] fix: do not read past the end of the strings written by
 Lua scripts

---
 .../src/viriatum_mod_lua/module/handler.c       | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/modules/mod_lua/src/viriatum_mod_lua/module/handler.c b/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
index e4a8f4d..0cbd0b1 100644
--- a/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
+++ b/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
@@ -335,7 +335,12 @@ int _lua_write_connection(lua_State *lua_state) {
     unsigned char *buffer;
 
     /* allocates the data size */
-    unsigned int data_size;
+    size_t data_size;
+
+    /* allocates the size of the string that contains the
+    data and the requested (signed) number of bytes */
+    size_t string_size;
+    lua_Integer number_bytes;
 
     /* allocates the HTTP parser */
     struct http_parser_t *http_parser;
@@ -384,10 +389,16 @@ int _lua_write_connection(lua_State *lua_state) {
     }
 
     /* converts the third argument into an integer */
-    data_size = lua_tointeger(lua_state, -1);
+    number_bytes = lua_tointeger(lua_state, -1);
 
     /* converts the second argument into a string */
-    data = lua_tostring(lua_state, -2);
+    data = lua_tolstring(lua_state, -2, &string_size);
+
+    /* limits the number of bytes to be sent to the ones that
+    are really part of the string (avoids reading past its end) */
+    if(number_bytes < 0) { number_bytes = 0; }
+    data_size = (size_t) number_bytes;
+    if(data_size > string_size) { data_size = string_size; }
 
     /* converts the first argument into HTTP parser structure */
     http_parser = (struct http_parser_t *) lua_touserdata(lua_state, -3);
-- 
2.43.0


From 341a6675d78bef2faa66e72c16d685596ea529aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:51 +0000
Subject: [PATCH 26/96] fix: discard the values left in the Lua stack by the
 previous requests

---
 modules/mod_lua/src/viriatum_mod_lua/module/handler.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/mod_lua/src/viriatum_mod_lua/module/handler.c b/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
index 0cbd0b1..334973f 100644
--- a/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
+++ b/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
@@ -206,6 +206,10 @@ ERROR_CODE _send_response_handler_lua(struct http_parser_t *http_parser) {
         RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem accessing Lua state");
     }
 
+    /* discards the values (results and error messages) that previous
+    executions left in the stack, avoids an ever growing stack */
+    lua_settop(mod_lua_http_handler->lua_state, 0);
+
     /* registers the current connection in Lua */
     lua_pushlightuserdata(mod_lua_http_handler->lua_state, (void *) http_parser);
     lua_setglobal(mod_lua_http_handler->lua_state, "connection");
-- 
2.43.0


From 4e31d0600cd4dc9e07707486fbcd3a6ffdfbab63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:59 +0000
Subject: [PATCH 27/96] fix: keep the request buffer of the proxy when it has
 to grow

---
 src/viriatum/handlers/handler_proxy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum/handlers/handler_proxy.h b/src/viriatum/handlers/handler_proxy.h
index 87b058c..96721a4 100644
--- a/src/viriatum/handlers/handler_proxy.h
+++ b/src/viriatum/handlers/handler_proxy.h
@@ -247,7 +247,7 @@ static __inline void write_proxy_out_buffer(struct handler_proxy_context_t *cont
 static __inline void write_proxy_buffer(struct handler_proxy_context_t *context, char *data, size_t size) {
     if(context->buffer_size + size > context->buffer_max_size) {
         context->buffer_max_size = (context->buffer_size + size) * 2;
-        context->out_buffer = REALLOC(context->buffer, context->buffer_max_size);
+        context->buffer = REALLOC(context->buffer, context->buffer_max_size);
     }
 
     memcpy(&context->buffer[context->buffer_size], data, size);
-- 
2.43.0


From a21b75752fc156c653c6e06000776cf639ed6cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:17 +0000
Subject: [PATCH 28/96] fix: close the sockets of the client connections that
 are not possible to be created

---
 src/viriatum/system/client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/viriatum/system/client.c b/src/viriatum/system/client.c
index ad23739..4d398ca 100644
--- a/src/viriatum/system/client.c
+++ b/src/viriatum/system/client.c
@@ -63,6 +63,7 @@ ERROR_CODE _create_client_connection(struct connection_t **connection_pointer, s
     an error indicating the problem */
     server = SOCKET_GET_HOST_BY_NAME(hostname);
     if(server == NULL) {
+        SOCKET_CLOSE(socket_handle);
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "No such host"
@@ -80,6 +81,7 @@ ERROR_CODE _create_client_connection(struct connection_t **connection_pointer, s
     a problem in the connection attempt, raises an error */
     error = SOCKET_CONNECT_SIZE(socket_handle, serv_addr, sizeof(SOCKET_ADDRESS_INTERNET));
     if(SOCKET_TEST_ERROR(error)) {
+        SOCKET_CLOSE(socket_handle);
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem connecting to host"
-- 
2.43.0


From 6b2f814a26dae7518329d9b388f1ea69ec224c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:17 +0000
Subject: [PATCH 29/96] fix: do not read out of the bounds of the status
 messages for unknown codes

---
 src/viriatum/http/http_util.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/http/http_util.h b/src/viriatum/http/http_util.h
index c4ff195..1c6374e 100644
--- a/src/viriatum/http/http_util.h
+++ b/src/viriatum/http/http_util.h
@@ -29,7 +29,7 @@
 
 #include "../system/service.h"
 
-#define GET_HTTP_STATUS(code) http_status_codes[(code / 100) - 1][code % 100]
+#define GET_HTTP_STATUS(code) get_http_status_message(code)
 
 /* forward references (avoids loop) */
 struct data_t;
@@ -131,7 +131,7 @@ static const char *http_status_codes[5][64] = {
         "Request Timeout",
         "Conflict",
         "Gone",
-        "Length Required"
+        "Length Required",
         "Precondition Failed",
         "Request Entity Too Large",
         "Request-URI Too Long",
@@ -263,6 +263,21 @@ __inline static const char *_get_close_code(size_t index) {
     return close_codes[index];
 }
 
+/**
+ * Retrieves the message associated with the provided status code,
+ * a generic message is returned for the codes that are not known.
+ *
+ * @param code The status code to retrieve the message for.
+ * @return The message associated with the status code.
+ */
+__inline static const char *get_http_status_message(unsigned short code) {
+    const char *message = NULL;
+    if(code >= 100 && code < 600 && code % 100 < 64) {
+        message = http_status_codes[(code / 100) - 1][code % 100];
+    }
+    return message == NULL ? "Unknown" : message;
+}
+
 __inline static const char *_get_http_status_code(size_t major, size_t minor) {
     return http_status_codes[major][minor];
 }
-- 
2.43.0


From da9e950a5efabf4397f0aeb2a7cb8420941ff5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:17 +0000
Subject: [PATCH 30/96] fix: do not overflow the local buffers of the proxy
 with long paths

---
 src/viriatum/handlers/handler_proxy.c | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 32525db..6514b7e 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -484,15 +484,6 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     struct custom_parameters_t *parameters;
     struct connection_t *connection_c;
 
-    /* sets space for the resulting size of the buffer that will hold
-    the status line to be sent to the backend connection */
-    size_t size_m;
-
-    /* allocates two buffers for temporary and local operations to
-    in the current callback function */
-    char buffer[1024];
-    char path[1024];
-
     /* allocates space fot the temporary variable that will store the
     on close handler that will be set in the associative map */
     io_connection_callback on_close;
@@ -523,15 +514,15 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
 
-    /* copies the virtual url value into the local path buffer and then
-    closes it as a null terminated string */
-    memcpy(path, data, data_size);
-    path[data_size] = '\0';
-
-    /* writes the initial line of the HTTP message into the temporary buffer
-    and then sends this value to the current buffer for writing */
-    size_m = SPRINTF(buffer, 1024, "%s %s %s\r\n", method, path, version);
-    write_proxy_buffer(handler_proxy_context, buffer, size_m);
+    /* writes the various parts of the initial line of the HTTP message
+    to the current buffer for writing, there's no limit for the size of
+    the virtual url as the buffer grows to the required size */
+    write_proxy_buffer(handler_proxy_context, (char *) method, strlen(method));
+    write_proxy_buffer(handler_proxy_context, " ", 1);
+    write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
+    write_proxy_buffer(handler_proxy_context, " ", 1);
+    write_proxy_buffer(handler_proxy_context, (char *) version, strlen(version));
+    write_proxy_buffer(handler_proxy_context, "\r\n", 2);
 
     /*@todo: can put here the extra headers to be sent to the backend */
     write_proxy_buffer(handler_proxy_context, "X-Viriatum-Proxy:1\r\n", 20);
-- 
2.43.0


From c939c982891d7108a92e56261f8694f79fbb8922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:57 +0000
Subject: [PATCH 31/96] fix: always send absolute paths in the requests of the
 proxy

---
 src/viriatum/handlers/handler_proxy.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 6514b7e..0325701 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -519,6 +519,7 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     the virtual url as the buffer grows to the required size */
     write_proxy_buffer(handler_proxy_context, (char *) method, strlen(method));
     write_proxy_buffer(handler_proxy_context, " ", 1);
+    if(data_size == 0 || data[0] != '/') { write_proxy_buffer(handler_proxy_context, "/", 1); }
     write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
     write_proxy_buffer(handler_proxy_context, " ", 1);
     write_proxy_buffer(handler_proxy_context, (char *) version, strlen(version));
-- 
2.43.0


From ea8b13b2fcf96b1e1bbd46abca4835937a1de147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:57 +0000
Subject: [PATCH 32/96] fix: relay the trailing, empty and multiple line
 headers of the proxy as valid headers

---
 src/viriatum/handlers/handler_proxy.c | 54 +++++++++++++++++++++++++--
 src/viriatum/handlers/handler_proxy.h | 12 ++++++
 2 files changed, 63 insertions(+), 3 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 0325701..002a484 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -101,6 +101,8 @@ ERROR_CODE create_handler_proxy_context(struct handler_proxy_context_t **handler
     handler_proxy_context->out_buffer_max_size = 1024;
     handler_proxy_context->connection = NULL;
     handler_proxy_context->connection_c = NULL;
+    handler_proxy_context->header_pending = FALSE;
+    handler_proxy_context->out_header_pending = FALSE;
     handler_proxy_context->pending = FALSE;
     handler_proxy_context->pending_write = 0;
 
@@ -356,6 +358,7 @@ ERROR_CODE message_begin_callback_handler_proxy(struct http_parser_t *http_parse
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
     handler_proxy_context->buffer_size = 0;
+    handler_proxy_context->header_pending = FALSE;
     RAISE_NO_ERROR;
 }
 
@@ -366,23 +369,41 @@ ERROR_CODE url_callback_handler_proxy(struct http_parser_t *http_parser, const u
 ERROR_CODE header_field_callback_handler_proxy(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
-    write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
 
+    /* ignores the (trailing) headers that come after the body of the message
+    and closes a previous header for which no value has been provided */
+    if(http_parser->flags & FLAG_TRAILING) { RAISE_NO_ERROR; }
+    if(handler_proxy_context->header_pending) { write_proxy_buffer(handler_proxy_context, ":\r\n", 3); }
+
+    write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
+    handler_proxy_context->header_pending = TRUE;
     RAISE_NO_ERROR;
 }
 
 ERROR_CODE header_value_callback_handler_proxy(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
-    write_proxy_buffer(handler_proxy_context, ": ", 2);
+
+    /* in case the value is the continuation of the value in the previous
+    line it's added to it, separated by a single space */
+    if(http_parser->flags & FLAG_TRAILING) { RAISE_NO_ERROR; }
+    if(handler_proxy_context->header_pending) { write_proxy_buffer(handler_proxy_context, ": ", 2); }
+    else {
+        handler_proxy_context->buffer_size -= 2;
+        write_proxy_buffer(handler_proxy_context, " ", 1);
+    }
+
     write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
     write_proxy_buffer(handler_proxy_context, "\r\n", 2);
+    handler_proxy_context->header_pending = FALSE;
     RAISE_NO_ERROR;
 }
 
 ERROR_CODE headers_complete_callback_handler_proxy(struct http_parser_t *http_parser) {
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
+    if(handler_proxy_context->header_pending) { write_proxy_buffer(handler_proxy_context, ":\r\n", 3); }
+    handler_proxy_context->header_pending = FALSE;
     write_proxy_buffer(handler_proxy_context, "\r\n", 2);
     RAISE_NO_ERROR;
 }
@@ -794,6 +815,10 @@ ERROR_CODE line_callback_backend(struct http_parser_t *http_parser) {
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
 
+    /* in case the line is the one that ends the chunked body of the
+    message there's nothing to be written (not the status line) */
+    if(http_parser->flags & FLAG_TRAILING) { RAISE_NO_ERROR; }
+
     /* retrieves the enumeration representation of the version
     value in order to be used in the string retrieval */
     enum http_version_e version_e = get_http_version(
@@ -822,16 +847,33 @@ ERROR_CODE line_callback_backend(struct http_parser_t *http_parser) {
 ERROR_CODE header_field_callback_backend(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
+
+    /* ignores the (trailing) headers that come after the body of the message
+    and closes a previous header for which no value has been provided */
+    if(http_parser->flags & FLAG_TRAILING) { RAISE_NO_ERROR; }
+    if(handler_proxy_context->out_header_pending) { write_proxy_out_buffer(handler_proxy_context, ":\r\n", 3); }
+
     write_proxy_out_buffer(handler_proxy_context, (char *) data, data_size);
+    handler_proxy_context->out_header_pending = TRUE;
     RAISE_NO_ERROR;
 }
 
 ERROR_CODE header_value_callback_backend(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
-    write_proxy_out_buffer(handler_proxy_context, ": ", 2);
+
+    /* in case the value is the continuation of the value in the previous
+    line it's added to it, separated by a single space */
+    if(http_parser->flags & FLAG_TRAILING) { RAISE_NO_ERROR; }
+    if(handler_proxy_context->out_header_pending) { write_proxy_out_buffer(handler_proxy_context, ": ", 2); }
+    else {
+        handler_proxy_context->out_buffer_size -= 2;
+        write_proxy_out_buffer(handler_proxy_context, " ", 1);
+    }
+
     write_proxy_out_buffer(handler_proxy_context, (char *) data, data_size);
     write_proxy_out_buffer(handler_proxy_context, "\r\n", 2);
+    handler_proxy_context->out_header_pending = FALSE;
     RAISE_NO_ERROR;
 }
 
@@ -844,6 +886,10 @@ ERROR_CODE headers_complete_callback_backend(struct http_parser_t *http_parser)
     struct connection_t *connection = handler_proxy_context->connection;
     struct connection_t *connection_c = handler_proxy_context->connection_c;
 
+    /* closes the last header in case no value has been provided for it */
+    if(handler_proxy_context->out_header_pending) { write_proxy_out_buffer(handler_proxy_context, ":\r\n", 3); }
+    handler_proxy_context->out_header_pending = FALSE;
+
     /* writes the final header to body separator in the current output
     buffer of the proxy and then flushes (writes) the output buffer to
     the proxy client connection (propagation) */
@@ -979,6 +1025,8 @@ ERROR_CODE _reset_http_parser_handler_proxy(struct http_parser_t *http_parser) {
     should discard the values in the buffer */
     handler_proxy_context->buffer_size = 0;
     handler_proxy_context->out_buffer_size = 0;
+    handler_proxy_context->header_pending = FALSE;
+    handler_proxy_context->out_header_pending = FALSE;
     handler_proxy_context->pending = FALSE;
     handler_proxy_context->pending_write = 0;
 
diff --git a/src/viriatum/handlers/handler_proxy.h b/src/viriatum/handlers/handler_proxy.h
index 96721a4..472c2a2 100644
--- a/src/viriatum/handlers/handler_proxy.h
+++ b/src/viriatum/handlers/handler_proxy.h
@@ -181,6 +181,18 @@ typedef struct handler_proxy_context_t {
      */
     struct http_parser_t *http_parser;
 
+    /**
+     * Flag that controls if the name of an header has already been written
+     * to the buffer and its value is still to be written.
+     */
+    char header_pending;
+
+    /**
+     * Flag that controls if the name of an header has already been written
+     * to the output buffer and its value is still to be written.
+     */
+    char out_header_pending;
+
     /**
      * If there's a message pending to be processed (request sent) and the
      * reply message hasn't been completely processed. This flag can be used
-- 
2.43.0


From 690bbfa70449407cca24f5d4515146c53a34e7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:39 +0000
Subject: [PATCH 33/96] fix: do not change the buffers of the proxy that are
 still to be written

---
 src/viriatum/handlers/handler_proxy.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 002a484..21a32c6 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -454,14 +454,18 @@ ERROR_CODE message_complete_callback_handler_proxy(struct http_parser_t *http_pa
             (void *) (size_t) http_parser->flags
         );
     } else {
-        write_connection_c(
+        /* the ownership of the buffer is given to the backend connection as
+        the request may still be in the write queue once the context is released */
+        write_connection(
             handler_proxy_context->connection_c,
             (unsigned char *) handler_proxy_context->buffer,
             handler_proxy_context->buffer_size,
             NULL,
-            NULL,
-            FALSE
+            NULL
         );
+        handler_proxy_context->buffer = NULL;
+        handler_proxy_context->buffer_size = 0;
+        handler_proxy_context->buffer_max_size = 0;
     }
 
     /* raises no error as no problem has arised from the
@@ -894,13 +898,12 @@ ERROR_CODE headers_complete_callback_backend(struct http_parser_t *http_parser)
     buffer of the proxy and then flushes (writes) the output buffer to
     the proxy client connection (propagation) */
     write_proxy_out_buffer(handler_proxy_context, "\r\n", 2);
-    write_connection_c(
+    write_connection(
         connection,
         (unsigned char *) handler_proxy_context->out_buffer,
         handler_proxy_context->out_buffer_size,
         _pending_handler_proxy,
-        (void *) handler_proxy_context,
-        FALSE
+        (void *) handler_proxy_context
     );
 
     /* adds the size of the current data to the counter of bytes
@@ -913,6 +916,12 @@ ERROR_CODE headers_complete_callback_backend(struct http_parser_t *http_parser)
         connection_c->unregister_read(connection_c);
     }
 
+    /* the ownership of the output buffer has been given to the proxy client
+    connection, so that a new one must be used for any other set of headers */
+    handler_proxy_context->out_buffer = MALLOC(1024);
+    handler_proxy_context->out_buffer_size = 0;
+    handler_proxy_context->out_buffer_max_size = 1024;
+
     /* raises no error */
     RAISE_NO_ERROR;
 }
-- 
2.43.0


From bcddb8211df30697d2c157773a381f82e130f38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:17 +0000
Subject: [PATCH 34/96] fix: relay the messages that are delimited by the end
 of the connection to the proxy clients

---
 src/viriatum/handlers/handler_proxy.c | 22 +++++++++++++++++++---
 src/viriatum/http/http_parser.c       |  8 +-------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 21a32c6..99b627f 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -788,12 +788,24 @@ ERROR_CODE close_backend_handler(struct io_connection_t *io_connection) {
             (struct handler_proxy_context_t *) custom_parameters->parameters;
         handler_proxy_context->connection_c = NULL;
 
+        /* notifies the parser about the end of the data so that a message for
+        which the body is delimited by the end of the connection is completed */
+        if(handler_proxy_context->pending) {
+            process_data_http_parser(
+                handler_proxy_context->http_parser,
+                handler_proxy_context->http_settings,
+                NULL,
+                0
+            );
+        }
+
         /* in case there's data currently pending then the final connection cleanup
         operation has not been yet scheduled, so one must be scheduled to close
         the service (proxy client) connection */
         if(handler_proxy_context->pending) {
+            handler_proxy_context->pending = FALSE;
             write_connection_c(
-                connection,
+                connection_s,
                 (unsigned char *) "",
                 0,
                 _cleanup_handler_proxy,
@@ -953,7 +965,7 @@ ERROR_CODE body_callback_backend(struct http_parser_t *http_parser, const unsign
     the maximum allowed and the read enabled in the client connection
     disables the read operations in the backend connection (avoids flooding) */
     handler_proxy_context->pending_write += data_size;
-    if(connection_c->read_registered == TRUE &&\
+    if(connection_c != NULL && connection_c->read_registered == TRUE &&\
         handler_proxy_context->pending_write >= VIRIATUM_MAX_READ) {
         connection_c->unregister_read(connection_c);
     }
@@ -969,6 +981,10 @@ ERROR_CODE message_complete_callback_backend(struct http_parser_t *http_parser)
         (struct handler_proxy_context_t *) http_parser->context;
     struct connection_t *connection = handler_proxy_context->connection;
 
+    /* a message for which the body is delimited by the end of the connection
+    must also be delimited that way in the proxy client connection */
+    unsigned char flags = http_parser->state == STATE_BODY_IDENTITY_EOF ? 0 : http_parser->flags;
+
     /* writes the final (empty value) to the connection stream so that
     the cleanup handler callback is called at the end of all the pending
     write operations, this is a required "empty" operation */
@@ -977,7 +993,7 @@ ERROR_CODE message_complete_callback_backend(struct http_parser_t *http_parser)
         (unsigned char *) "",
         0,
         _cleanup_handler_proxy,
-        (void *) (size_t) http_parser->flags,
+        (void *) (size_t) flags,
         FALSE
     );
 
diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index 9629b91..0770300 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -1566,7 +1566,7 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                             value so that it can be used later */
                             http_parser->_content_length = http_parser->content_length;
                         } else {
-                            if(http_parser->type == HTTP_REQUEST || http_should_keep_alive(http_parser)) {
+                            if(http_parser->type == HTTP_REQUEST) {
                                 /* assumes content-length 0 - read the next */
                                 HTTP_CALLBACK(message_complete);
                                 state = NEW_MESSAGE();
@@ -1745,12 +1745,6 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
         }
     }
 
-    if(state == STATE_BODY_IDENTITY_EOF) {
-        HTTP_CALLBACK(message_complete);
-        state = NEW_MESSAGE();
-        parse_count++;
-    }
-
     /* updates (saves) the vaious parser state values into the
     proper structure so that they may be used latter in further
     parsing stages (partial parsing) */
-- 
2.43.0


From c4e8c2c16daf3497abaa0ab722cd742df3cfb6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:17 +0000
Subject: [PATCH 35/96] fix: notify the proxy client in case the backend
 connection is closed before the response

---
 src/viriatum/handlers/handler_proxy.c | 62 ++++++++++++++++-----------
 src/viriatum/handlers/handler_proxy.h |  7 +++
 2 files changed, 44 insertions(+), 25 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 99b627f..770751d 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -104,6 +104,7 @@ ERROR_CODE create_handler_proxy_context(struct handler_proxy_context_t **handler
     handler_proxy_context->header_pending = FALSE;
     handler_proxy_context->out_header_pending = FALSE;
     handler_proxy_context->pending = FALSE;
+    handler_proxy_context->started = FALSE;
     handler_proxy_context->pending_write = 0;
 
     /* creates a new set of HTTP settings and parser for the new
@@ -416,10 +417,6 @@ ERROR_CODE body_callback_handler_proxy(struct http_parser_t *http_parser, const
 }
 
 ERROR_CODE message_complete_callback_handler_proxy(struct http_parser_t *http_parser) {
-    /* reserves space fot the pointer to the buffer that may
-    be created in case there's a problem in the gateway */
-    char *buffer;
-
     /* retrieves the parser's context as the proxy context and then
     uses it's parameters to retrieve the connection and then retrieves
     it's underlying layers of the connection */
@@ -440,20 +437,14 @@ ERROR_CODE message_complete_callback_handler_proxy(struct http_parser_t *http_pa
     in case it's not there must have been an error and it must be sent to the
     proxy client connection (service conneciont) */
     if(handler_proxy_context->connection_c == NULL) {
-        buffer = MALLOC(VIRIATUM_HTTP_SIZE);
-        write_http_error(
-            connection,
-            buffer,
-            VIRIATUM_HTTP_SIZE,
-            HTTP11,
-            502,
-            "Bad gateway",
-            "Invalid proxy connection",
-            http_parser->flags & FLAG_KEEP_ALIVE ? KEEP_ALIVE : KEEP_CLOSE,
-            _cleanup_handler_proxy,
-            (void *) (size_t) http_parser->flags
-        );
+        _write_error_proxy(connection, http_parser->flags);
     } else {
+        /* updates the current proxy context so that the pending flag is set
+        this means that the message to be sent to the proxy client is in the
+        middle of the processing, any connection dropped in this state should
+        also be notified to the proxy client */
+        handler_proxy_context->pending = TRUE;
+
         /* the ownership of the buffer is given to the backend connection as
         the request may still be in the write queue once the context is released */
         write_connection(
@@ -577,12 +568,6 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     parameters->on_close = close_backend_handler;
     parameters->parameters = (void *) handler_proxy_context;
 
-    /* updates the current proxy context so that the pending flag is set
-    this means that the message to be sent to the proxy client is in the
-    middle of the processing, any connection dropped in this state should
-    also drop the connection to the proxy client */
-    handler_proxy_context->pending = TRUE;
-
     /* sets the initial values for the number of bytes pending in the write
     buffer to be writen this value will be used to control the read stream
     of the backend server, in order to avoid flooding */
@@ -721,6 +706,7 @@ ERROR_CODE close_backend_handler(struct io_connection_t *io_connection) {
     struct handler_proxy_context_t *handler_proxy_context;
     struct connection_t *connection_s;
     struct io_connection_t *io_connection_s;
+    struct http_connection_t *http_connection_s;
 
     /* reserves space for both the top level HTTP handler structure and the
     concrete proxy handler structure containing the specifics of the proxy and
@@ -801,8 +787,14 @@ ERROR_CODE close_backend_handler(struct io_connection_t *io_connection) {
 
         /* in case there's data currently pending then the final connection cleanup
         operation has not been yet scheduled, so one must be scheduled to close
-        the service (proxy client) connection */
-        if(handler_proxy_context->pending) {
+        the service (proxy client) connection, unless no part of the response
+        has been sent to the client and the error may be sent to it */
+        if(handler_proxy_context->pending && !handler_proxy_context->started) {
+            handler_proxy_context->pending = FALSE;
+            http_connection_s = (struct http_connection_t *) io_connection_s->lower;
+            _write_error_proxy(connection_s, http_connection_s->http_parser->flags);
+        }
+        else if(handler_proxy_context->pending) {
             handler_proxy_context->pending = FALSE;
             write_connection_c(
                 connection_s,
@@ -905,6 +897,7 @@ ERROR_CODE headers_complete_callback_backend(struct http_parser_t *http_parser)
     /* closes the last header in case no value has been provided for it */
     if(handler_proxy_context->out_header_pending) { write_proxy_out_buffer(handler_proxy_context, ":\r\n", 3); }
     handler_proxy_context->out_header_pending = FALSE;
+    handler_proxy_context->started = TRUE;
 
     /* writes the final header to body separator in the current output
     buffer of the proxy and then flushes (writes) the output buffer to
@@ -1053,6 +1046,7 @@ ERROR_CODE _reset_http_parser_handler_proxy(struct http_parser_t *http_parser) {
     handler_proxy_context->header_pending = FALSE;
     handler_proxy_context->out_header_pending = FALSE;
     handler_proxy_context->pending = FALSE;
+    handler_proxy_context->started = FALSE;
     handler_proxy_context->pending_write = 0;
 
     /* raises no error */
@@ -1093,6 +1087,24 @@ ERROR_CODE _unset_http_settings_handler_proxy(struct http_settings_t *http_setti
     RAISE_NO_ERROR;
 }
 
+ERROR_CODE _write_error_proxy(struct connection_t *connection, unsigned char flags) {
+    /* writes the error that notifies the proxy client about the failure
+    in the communication with the backend server */
+    char *buffer = MALLOC(VIRIATUM_HTTP_SIZE);
+    return write_http_error(
+        connection,
+        buffer,
+        VIRIATUM_HTTP_SIZE,
+        HTTP11,
+        502,
+        "Bad gateway",
+        "Invalid proxy connection",
+        flags & FLAG_KEEP_ALIVE ? KEEP_ALIVE : KEEP_CLOSE,
+        _cleanup_handler_proxy,
+        (void *) (size_t) flags
+    );
+}
+
 ERROR_CODE _pending_handler_proxy(struct connection_t *connection, struct data_t *data, void *parameters) {
     /* loads the parameters pointer as the proxy context structure and then
     retrieves the client connection from it to be used for its state update */
diff --git a/src/viriatum/handlers/handler_proxy.h b/src/viriatum/handlers/handler_proxy.h
index 472c2a2..74b55cb 100644
--- a/src/viriatum/handlers/handler_proxy.h
+++ b/src/viriatum/handlers/handler_proxy.h
@@ -201,6 +201,12 @@ typedef struct handler_proxy_context_t {
      */
     char pending;
 
+    /**
+     * If the (final) headers of the reply message have already been sent
+     * to the proxy client, after this no error message may be sent to it.
+     */
+    char started;
+
     /**
      * The amount of bytes that are currently pending to be writen in the
      * client proxy from data comming from the backend server. This value
@@ -243,6 +249,7 @@ ERROR_CODE _unset_http_parser_handler_proxy(struct http_parser_t *http_parser);
 ERROR_CODE _reset_http_parser_handler_proxy(struct http_parser_t *http_parser);
 ERROR_CODE _set_http_settings_handler_proxy(struct http_settings_t *http_settings);
 ERROR_CODE _unset_http_settings_handler_proxy(struct http_settings_t *http_settings);
+ERROR_CODE _write_error_proxy(struct connection_t *connection, unsigned char flags);
 ERROR_CODE _pending_handler_proxy(struct connection_t *connection, struct data_t *data, void *parameters);
 ERROR_CODE _cleanup_handler_proxy(struct connection_t *connection, struct data_t *data, void *parameters);
 
-- 
2.43.0


From fd39e568ad61d278654738434a8128a1a3a888e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:09 +0000
Subject: [PATCH 36/96] fix: process the complete data received from the
 backend of the proxy

---
 src/viriatum/handlers/handler_proxy.c | 71 ++++++++++++++++++++++-----
 src/viriatum/handlers/handler_proxy.h | 11 +++++
 2 files changed, 71 insertions(+), 11 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 770751d..8efad4b 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -99,6 +99,8 @@ ERROR_CODE create_handler_proxy_context(struct handler_proxy_context_t **handler
     handler_proxy_context->out_buffer = MALLOC(1024);
     handler_proxy_context->out_buffer_size = 0;
     handler_proxy_context->out_buffer_max_size = 1024;
+    handler_proxy_context->in_buffer = NULL;
+    handler_proxy_context->in_buffer_size = 0;
     handler_proxy_context->connection = NULL;
     handler_proxy_context->connection_c = NULL;
     handler_proxy_context->header_pending = FALSE;
@@ -141,6 +143,10 @@ ERROR_CODE delete_handler_proxy_context(struct handler_proxy_context_t *handler_
     defined it must be properly released to avoid memory leaks */
     if(handler_proxy_context->out_buffer) { FREE(handler_proxy_context->out_buffer); }
 
+    /* in case the input buffer for the current proxy context is
+    defined it must be properly released to avoid memory leaks */
+    if(handler_proxy_context->in_buffer) { FREE(handler_proxy_context->in_buffer); }
+
     /* in case the HTTP settings structure is defined for the current
     context it must be release in order to avoid any leaks */
     if(handler_proxy_context->http_settings) {
@@ -664,8 +670,13 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
 
 ERROR_CODE data_backend_handler(struct io_connection_t *io_connection, unsigned char *buffer, size_t buffer_size) {
     /* allocates space for the proxy context that may be retrieved
-    latter in the function */
+    latter in the function and for the values of the parsing */
     struct handler_proxy_context_t *handler_proxy_context;
+    struct http_parser_t *http_parser;
+    unsigned char *data;
+    unsigned char *mark;
+    int processed_size;
+    size_t offset;
 
     /* retrieves the top level connection object from the io connection
     and then uses it to retrieve its parameters */
@@ -675,24 +686,62 @@ ERROR_CODE data_backend_handler(struct io_connection_t *io_connection, unsigned
 
     /* in case there're no custom parameters available for the current
     backend connection, the connection is already disabled (but not closed)
-    and so the data operation should be ignored */
-    if(custom_parameters == NULL) { RAISE_NO_ERROR; }
+    and so the data is not part of any response and it can't be re-used */
+    if(custom_parameters == NULL) { return connection->close_connection(connection); }
 
     /* retrieves the current proxy context structure from the custom parameters
     to be used for the processing of the current data received from the backend */
     handler_proxy_context =\
         (struct handler_proxy_context_t *) custom_parameters->parameters;
 
+    http_parser = handler_proxy_context->http_parser;
+
+    /* in case there's a part of an header still in the parser adds the received
+    data to it, so that the complete header is available for the parser */
+    offset = handler_proxy_context->in_buffer_size;
+    data = (unsigned char *) MALLOC(offset + buffer_size);
+    if(offset > 0) { memcpy(data, handler_proxy_context->in_buffer, offset); }
+    memcpy(data + offset, buffer, buffer_size);
+    if(http_parser->header_field_mark) { http_parser->header_field_mark = data; }
+    if(http_parser->header_value_mark) { http_parser->header_value_mark = data; }
+    if(handler_proxy_context->in_buffer) { FREE(handler_proxy_context->in_buffer); }
+    handler_proxy_context->in_buffer = NULL;
+    handler_proxy_context->in_buffer_size = 0;
+    buffer_size += offset;
+
     /* runs the process operation (parser iteration) using the buffer that contains
     the data that has been retrieved from the backend server, this should trigger a
-    series of callbacks for the various stages of the parsing, then returns the control
-    flow to the caller function (everything went well) */
-    process_data_http_parser(
-        handler_proxy_context->http_parser,
-        handler_proxy_context->http_settings,
-        buffer,
-        buffer_size
-    );
+    series of callbacks for the various stages of the parsing, the parsing stops at
+    the end of each message or in case there's no request waiting for a response */
+    while(offset < buffer_size && handler_proxy_context->pending) {
+        processed_size = process_data_http_parser(
+            http_parser,
+            handler_proxy_context->http_settings,
+            data + offset,
+            buffer_size - offset
+        );
+        if(processed_size <= 0) { break; }
+        offset += processed_size;
+    }
+
+    /* in case there's data that is not possible to be processed (invalid or not
+    expected) the backend connection is not usable anymore and must be closed */
+    if(offset < buffer_size) {
+        FREE(data);
+        return connection->close_connection(connection);
+    }
+
+    /* keeps the part of the header that is still to be completed and releases
+    all of the other data, returning then the control flow to the caller */
+    mark = http_parser->header_field_mark ?\
+        http_parser->header_field_mark : http_parser->header_value_mark;
+    if(mark != NULL) {
+        offset = mark - data;
+        handler_proxy_context->in_buffer_size = buffer_size - offset;
+        handler_proxy_context->in_buffer = (unsigned char *) MALLOC(buffer_size - offset);
+        memcpy(handler_proxy_context->in_buffer, mark, buffer_size - offset);
+    }
+    FREE(data);
     RAISE_NO_ERROR;
 }
 
diff --git a/src/viriatum/handlers/handler_proxy.h b/src/viriatum/handlers/handler_proxy.h
index 74b55cb..e53ca65 100644
--- a/src/viriatum/handlers/handler_proxy.h
+++ b/src/viriatum/handlers/handler_proxy.h
@@ -155,6 +155,17 @@ typedef struct handler_proxy_context_t {
      */
     size_t out_buffer_max_size;
 
+    /**
+     * The data received from the backend that is part of an header that
+     * is still to be completed and that is used by the parser.
+     */
+    unsigned char *in_buffer;
+
+    /**
+     * The number of bytes that are stored in the input buffer.
+     */
+    size_t in_buffer_size;
+
     /**
      * The current service connection that "communicates" with the client
      * of the proxy service. This connection may be used to return the data
-- 
2.43.0


From c1b35caf7c3084b1fc7d6a5aa8a42286067c1429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:09 +0000
Subject: [PATCH 37/96] fix: keep the framing of the messages that are relayed
 by the proxy

---
 src/viriatum/handlers/handler_proxy.c | 66 +++++++++++++++++++++++----
 src/viriatum/handlers/handler_proxy.h |  6 +++
 2 files changed, 62 insertions(+), 10 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 8efad4b..29c43e0 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -106,6 +106,7 @@ ERROR_CODE create_handler_proxy_context(struct handler_proxy_context_t **handler
     handler_proxy_context->header_pending = FALSE;
     handler_proxy_context->out_header_pending = FALSE;
     handler_proxy_context->pending = FALSE;
+    handler_proxy_context->head = FALSE;
     handler_proxy_context->started = FALSE;
     handler_proxy_context->pending_write = 0;
 
@@ -418,7 +419,16 @@ ERROR_CODE headers_complete_callback_handler_proxy(struct http_parser_t *http_pa
 ERROR_CODE body_callback_handler_proxy(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
+    char buffer[32];
+
+    /* in case the body is chunked writes the data as a new chunk, the
+    parsing of the request has removed the original chunk information */
+    if(http_parser->flags & FLAG_CHUNKED) {
+        SPRINTF(buffer, 32, "%lx\r\n", (unsigned long) data_size);
+        write_proxy_buffer(handler_proxy_context, buffer, strlen(buffer));
+    }
     write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
+    if(http_parser->flags & FLAG_CHUNKED) { write_proxy_buffer(handler_proxy_context, "\r\n", 2); }
     RAISE_NO_ERROR;
 }
 
@@ -451,6 +461,11 @@ ERROR_CODE message_complete_callback_handler_proxy(struct http_parser_t *http_pa
         also be notified to the proxy client */
         handler_proxy_context->pending = TRUE;
 
+        /* writes the last chunk of the body in case the request is chunked */
+        if(http_parser->flags & FLAG_CHUNKED) {
+            write_proxy_buffer(handler_proxy_context, "0\r\n\r\n", 5);
+        }
+
         /* the ownership of the buffer is given to the backend connection as
         the request may still be in the write queue once the context is released */
         write_connection(
@@ -550,6 +565,10 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     /*@todo: can put here the extra headers to be sent to the backend */
     write_proxy_buffer(handler_proxy_context, "X-Viriatum-Proxy:1\r\n", 20);
 
+    /* saves the information about the existence of a body in the response so
+    that the parsing of it takes it into account */
+    handler_proxy_context->head = http_parser->method == HTTP_HEAD;
+
     /* updates the current proxy context object with the service connection
     pointer so that the internal client handlers are able to communicate "back"
     with the proxy client to send the data back */
@@ -942,11 +961,13 @@ ERROR_CODE headers_complete_callback_backend(struct http_parser_t *http_parser)
         (struct handler_proxy_context_t *) http_parser->context;
     struct connection_t *connection = handler_proxy_context->connection;
     struct connection_t *connection_c = handler_proxy_context->connection_c;
+    char interim;
 
     /* closes the last header in case no value has been provided for it */
     if(handler_proxy_context->out_header_pending) { write_proxy_out_buffer(handler_proxy_context, ":\r\n", 3); }
     handler_proxy_context->out_header_pending = FALSE;
-    handler_proxy_context->started = TRUE;
+    interim = http_parser->status_code / 100 == 1 && http_parser->status_code != 101;
+    if(!interim) { handler_proxy_context->started = TRUE; }
 
     /* writes the final header to body separator in the current output
     buffer of the proxy and then flushes (writes) the output buffer to
@@ -976,6 +997,13 @@ ERROR_CODE headers_complete_callback_backend(struct http_parser_t *http_parser)
     handler_proxy_context->out_buffer_size = 0;
     handler_proxy_context->out_buffer_max_size = 1024;
 
+    /* notifies the parser about the messages for which there's no body,
+    whatever the values that are present in the headers */
+    if(interim || handler_proxy_context->head ||\
+        http_parser->status_code == 204 || http_parser->status_code == 304) {
+        return 1;
+    }
+
     /* raises no error */
     RAISE_NO_ERROR;
 }
@@ -992,12 +1020,25 @@ ERROR_CODE body_callback_backend(struct http_parser_t *http_parser, const unsign
     /* allocates a buffer of the same size of the received body
     data and then copies the data into this new buffer, then
     writes the buffer into the current (proxy client) connection */
-    char *buffer = MALLOC(data_size);
-    memcpy(buffer, data, data_size);
+    char *buffer = MALLOC(data_size + 32);
+    size_t size = 0;
+
+    /* in case the body is chunked writes the data as a new chunk, the
+    parsing of the response has removed the original chunk information */
+    if(http_parser->flags & FLAG_CHUNKED) {
+        SPRINTF(buffer, 32, "%lx\r\n", (unsigned long) data_size);
+        size = strlen(buffer);
+    }
+    memcpy(buffer + size, data, data_size);
+    size += data_size;
+    if(http_parser->flags & FLAG_CHUNKED) {
+        memcpy(buffer + size, "\r\n", 2);
+        size += 2;
+    }
     write_connection(
         connection,
         (unsigned char *) buffer,
-        data_size,
+        size,
         _pending_handler_proxy,
         (void *) handler_proxy_context
     );
@@ -1006,7 +1047,7 @@ ERROR_CODE body_callback_backend(struct http_parser_t *http_parser, const unsign
     that are in the write buffer and then in case this values exceeds
     the maximum allowed and the read enabled in the client connection
     disables the read operations in the backend connection (avoids flooding) */
-    handler_proxy_context->pending_write += data_size;
+    handler_proxy_context->pending_write += size;
     if(connection_c != NULL && connection_c->read_registered == TRUE &&\
         handler_proxy_context->pending_write >= VIRIATUM_MAX_READ) {
         connection_c->unregister_read(connection_c);
@@ -1026,14 +1067,19 @@ ERROR_CODE message_complete_callback_backend(struct http_parser_t *http_parser)
     /* a message for which the body is delimited by the end of the connection
     must also be delimited that way in the proxy client connection */
     unsigned char flags = http_parser->state == STATE_BODY_IDENTITY_EOF ? 0 : http_parser->flags;
+    char chunked = http_parser->flags & FLAG_CHUNKED && !(http_parser->flags & FLAG_SKIPBODY);
+
+    /* in case the message is an interim one the response to the request
+    is the message that comes after it */
+    if(!handler_proxy_context->started) { RAISE_NO_ERROR; }
 
-    /* writes the final (empty value) to the connection stream so that
-    the cleanup handler callback is called at the end of all the pending
-    write operations, this is a required "empty" operation */
+    /* writes the final value (the last chunk or an empty value) to the
+    connection stream so that the cleanup handler callback is called at the
+    end of all the pending write operations, this is a required operation */
     write_connection_c(
         connection,
-        (unsigned char *) "",
-        0,
+        (unsigned char *) (chunked ? "0\r\n\r\n" : ""),
+        chunked ? 5 : 0,
         _cleanup_handler_proxy,
         (void *) (size_t) flags,
         FALSE
diff --git a/src/viriatum/handlers/handler_proxy.h b/src/viriatum/handlers/handler_proxy.h
index e53ca65..db22ea0 100644
--- a/src/viriatum/handlers/handler_proxy.h
+++ b/src/viriatum/handlers/handler_proxy.h
@@ -212,6 +212,12 @@ typedef struct handler_proxy_context_t {
      */
     char pending;
 
+    /**
+     * If the request is an HEAD one, for these requests there's no body
+     * in the reply message, whatever the headers of it.
+     */
+    char head;
+
     /**
      * If the (final) headers of the reply message have already been sent
      * to the proxy client, after this no error message may be sent to it.
-- 
2.43.0


From 8fb2916e344aac568f515b3c312532918545dc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:09 +0000
Subject: [PATCH 38/96] fix: do not re-use the backend connection of other
 proxy locations

---
 src/viriatum/handlers/handler_proxy.c | 27 +++++++++++++++++++++++++++
 src/viriatum/handlers/handler_proxy.h |  7 +++++++
 2 files changed, 34 insertions(+)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 29c43e0..8c8b091 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -48,6 +48,7 @@ ERROR_CODE create_proxy_handler(struct proxy_handler_t **proxy_handler_pointer,
     the proxy client connections */
     create_hash_map(&proxy_handler->connections_map, 0);
     create_hash_map(&proxy_handler->reverse_map, 0);
+    create_hash_map(&proxy_handler->pass_map, 0);
 
     /* creates the internal structures for the map that is going to be used
     to resolve the proxy connection to the old set on close handler so that
@@ -70,6 +71,7 @@ ERROR_CODE delete_proxy_handler(struct proxy_handler_t *proxy_handler) {
     and the exact oposite of that structure (reverse mapping) */
     delete_hash_map(proxy_handler->connections_map);
     delete_hash_map(proxy_handler->reverse_map);
+    delete_hash_map(proxy_handler->pass_map);
 
     /* removes the hash map structure that associates a client connection
     with the proxy with the upper on close handler that has been replaced
@@ -520,6 +522,7 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     client connection (to the backend) structures to be used/created*/
     struct custom_parameters_t *parameters;
     struct connection_t *connection_c;
+    unsigned char *proxy_pass;
 
     /* allocates space fot the temporary variable that will store the
     on close handler that will be set in the associative map */
@@ -583,6 +586,21 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
         (void **) &handler_proxy_context->connection_c
     );
 
+    /* verifies that the backend connection is the one for the proxy pass of
+    the current location, otherwise it's not usable and must be closed */
+    get_value_hash_map(
+        proxy_handler->pass_map,
+        (size_t) connection,
+        NULL,
+        (void **) &proxy_pass
+    );
+    if(handler_proxy_context->connection_c != NULL &&\
+        proxy_pass != handler_proxy_context->proxy_pass) {
+        connection_c = handler_proxy_context->connection_c;
+        handler_proxy_context->connection_c = NULL;
+        connection_c->close_connection(connection_c);
+    }
+
     /* creates the parameters object that is going to be passed to
     the connection and used on the open operation to guide it's
     creation, this is a custom protocol connection so the proper
@@ -647,6 +665,15 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
             handler_proxy_context->connection_c
         );
 
+        /* saves the proxy pass value for which the backend connection has
+        been created, to be verified for the next requests */
+        set_value_hash_map(
+            proxy_handler->pass_map,
+            (size_t) connection,
+            NULL,
+            handler_proxy_context->proxy_pass
+        );
+
         /* sets the reverse connection map, associating the client
         (backend) connection with its own client proxy to be used
         in the backend operation callbacks */
diff --git a/src/viriatum/handlers/handler_proxy.h b/src/viriatum/handlers/handler_proxy.h
index db22ea0..f1ac49b 100644
--- a/src/viriatum/handlers/handler_proxy.h
+++ b/src/viriatum/handlers/handler_proxy.h
@@ -87,6 +87,13 @@ typedef struct proxy_handler_t {
      */
     struct hash_map_t *reverse_map;
 
+    /**
+     * Map structure that associates the client connection with the
+     * proxy pass value of the location that has created its backend
+     * connection, that may only be re-used for the same value.
+     */
+    struct hash_map_t *pass_map;
+
     /**
      * Map structure that associates the client connection with
      * the on close handler that was previously set in the connection
-- 
2.43.0


From 2ed28ea3d66a4b69f0aa0479a759540d525601cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:43 +0000
Subject: [PATCH 39/96] fix: sha1 changed the contents of the buffer being
 digested

---
 src/viriatum_commons/checksum/sha1.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/checksum/sha1.c b/src/viriatum_commons/checksum/sha1.c
index 1dbfa2b..796ace3 100644
--- a/src/viriatum_commons/checksum/sha1.c
+++ b/src/viriatum_commons/checksum/sha1.c
@@ -92,9 +92,12 @@ void final_sha1(struct sha1_context_t *context, unsigned char *digest) {
 
 void _transform_sha1(unsigned int state[5], const unsigned char buffer[64]) {
     unsigned int a, b, c, d, e;
-    union sha1_block_t *block;
+    union sha1_block_t copy;
+    union sha1_block_t *block = &copy;
 
-    block = (union sha1_block_t *) buffer;
+    /* copies the block so that the buffer (owned by the caller and
+    possibly not aligned) is not changed by the operations */
+    memcpy(block, buffer, sizeof(copy));
 
     /* copies context state to working vars */
     a = state[0];
-- 
2.43.0


From dd3ccb1170243eed6c460432335dbb9e053835f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:43 +0000
Subject: [PATCH 40/96] fix: md5 read misaligned integers of the buffer being
 digested

---
 src/viriatum_commons/checksum/md5.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/viriatum_commons/checksum/md5.h b/src/viriatum_commons/checksum/md5.h
index 3ee3642..d493724 100644
--- a/src/viriatum_commons/checksum/md5.h
+++ b/src/viriatum_commons/checksum/md5.h
@@ -43,7 +43,11 @@
     (a) = (((a) << (s)) | (((a) & 0xffffffff) >> (32 - (s))));\
     (a) += (b);
 
-#define SET(n) (*(unsigned int *)&pointer[(n) * 4])
+#define SET(n)\
+    ((unsigned int) pointer[(n) * 4] |\
+    ((unsigned int) pointer[(n) * 4 + 1] << 8) |\
+    ((unsigned int) pointer[(n) * 4 + 2] << 16) |\
+    ((unsigned int) pointer[(n) * 4 + 3] << 24))
 #define GET(n) SET(n)
 
 /**
-- 
2.43.0


From 1810d4ca55cc49d0210110c3ed7fc553d9e4312d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:43 +0000
Subject: [PATCH 41/96] fix: rc4 wrote past the end of its permutation box

---
 src/viriatum_commons/crypto/rc4.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum_commons/crypto/rc4.h b/src/viriatum_commons/crypto/rc4.h
index 1a74dec..bb39ee1 100644
--- a/src/viriatum_commons/crypto/rc4.h
+++ b/src/viriatum_commons/crypto/rc4.h
@@ -31,7 +31,7 @@ typedef struct rc4_t {
     char *key;
     unsigned char x;
     unsigned char y;
-    unsigned char box[255];
+    unsigned char box[256];
 } rc4;
 
 VIRIATUM_EXPORT_PREFIX void create_rc4(char *key, struct rc4_t **rc4_pointer);
-- 
2.43.0


From aa5c284ee481b8eb40706ee63c99f47dab6037e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:44 +0000
Subject: [PATCH 42/96] fix: huffman table decoding closed its output with the
 function of the input

---
 src/viriatum_commons/compression/huffman.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum_commons/compression/huffman.c b/src/viriatum_commons/compression/huffman.c
index 53a1ab2..da168ce 100644
--- a/src/viriatum_commons/compression/huffman.c
+++ b/src/viriatum_commons/compression/huffman.c
@@ -232,7 +232,7 @@ void decode_table_huffman(struct huffman_t *huffman, struct stream_t *in, struct
 
     /* closes the output stream flusing all of it's data and then
     closes the input bit based stream also*/
-    in->close(out);
+    out->close(out);
     close_bit_stream(bit_stream);
 
     /* deletes the bit stream structure, avoiding the leak of any
-- 
2.43.0


From 414658a40347416baa0e4338190b318581855bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:10 +0000
Subject: [PATCH 43/96] fix: sha1 counted the bits of large buffers twice

---
 src/viriatum_commons/checksum/sha1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum_commons/checksum/sha1.c b/src/viriatum_commons/checksum/sha1.c
index 796ace3..3fc8f4d 100644
--- a/src/viriatum_commons/checksum/sha1.c
+++ b/src/viriatum_commons/checksum/sha1.c
@@ -55,7 +55,7 @@ void update_sha1(struct sha1_context_t *context, const unsigned char *data, cons
     size_t i, j;
 
     j = (context->count[0] >> 3) & 63;
-    if((context->count[0] += size << 3) < (size << 3)) { context->count[1]++; }
+    if((context->count[0] += (unsigned int) (size << 3)) < (unsigned int) (size << 3)) { context->count[1]++; }
     context->count[1] += (size >> 29);
     if((j + size) > 63) {
         memcpy(&context->buffer[j], data, (i = 64 - j));
-- 
2.43.0


From 63b66bf03a8f4573d9e730e40f82dfec3f56f6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:10 +0000
Subject: [PATCH 44/96] fix: bit streams leaked their buffer

---
 src/viriatum_commons/stream/bit_stream.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/viriatum_commons/stream/bit_stream.c b/src/viriatum_commons/stream/bit_stream.c
index c75f693..55ed0d6 100644
--- a/src/viriatum_commons/stream/bit_stream.c
+++ b/src/viriatum_commons/stream/bit_stream.c
@@ -75,7 +75,8 @@ void create_bit_stream(struct bit_stream_t **bit_stream_pointer, struct stream_t
 }
 
 void delete_bit_stream(struct bit_stream_t *bit_stream) {
-    /* releases the bit stream */
+    /* releases the buffer and then the bit stream */
+    FREE(bit_stream->buffer);
     FREE(bit_stream);
 }
 
-- 
2.43.0


From 78392a77e93ec6579013af774a0f67d0ce41b0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:10 +0000
Subject: [PATCH 45/96] fix: seeking a bit stream back over the start of its
 buffer went to the wrong byte

---
 src/viriatum_commons/stream/bit_stream.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/viriatum_commons/stream/bit_stream.c b/src/viriatum_commons/stream/bit_stream.c
index 55ed0d6..91321a5 100644
--- a/src/viriatum_commons/stream/bit_stream.c
+++ b/src/viriatum_commons/stream/bit_stream.c
@@ -189,7 +189,7 @@ void seek_bit_stream(
             set back plus one (this is the distance to the initial byte in
             the last read operation) */
             total_read = bit_stream->byte_current_read + bit_stream->byte_counter_read;
-            diff_read = bit_stream->byte_current_read - (size_t) byte_count + 1;
+            diff_read = (size_t) byte_count - bit_stream->byte_current_read + 1;
 
             /* retrieves the reference to the underlying stream and uses it to
             gather its current position and recalculates the new position using
@@ -214,8 +214,8 @@ void seek_bit_stream(
         else {
             /* decrements the current byte for read by the number of bytes
             and increments the counter by the same amount (buffer move) */
-            bit_stream->byte_current_read -= (unsigned char) byte_count;
-            bit_stream->byte_counter_read += (unsigned char) byte_count;
+            bit_stream->byte_current_read -= (size_t) byte_count;
+            bit_stream->byte_counter_read += (size_t) byte_count;
         }
 
         /* reads the new current byte value from the buffer with the current
-- 
2.43.0


From f17ad881b1164a18c60de76d3bb24f217a9a3184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:10 +0000
Subject: [PATCH 46/96] fix: memory streams leaked their stream structure

---
 src/viriatum_commons/stream/memory_stream.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/viriatum_commons/stream/memory_stream.c b/src/viriatum_commons/stream/memory_stream.c
index 54de954..c8fd985 100644
--- a/src/viriatum_commons/stream/memory_stream.c
+++ b/src/viriatum_commons/stream/memory_stream.c
@@ -67,6 +67,7 @@ void delete_memory_stream(struct memory_stream_t *memory_stream) {
     must be released and then releases the memory of the
     proper memory stream structure (avoid memory leaks) */
     if(memory_stream->buffer) { FREE(memory_stream->buffer); }
+    delete_stream(memory_stream->stream);
     FREE(memory_stream);
 }
 
-- 
2.43.0


From d7feefa0f68b94123928e5b177ca76fc6424424a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:10 +0000
Subject: [PATCH 47/96] fix: memory streams miscounted their size when written
 after a seek operation

---
 src/viriatum_commons/stream/memory_stream.c | 28 ++++++++++++++++-----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/viriatum_commons/stream/memory_stream.c b/src/viriatum_commons/stream/memory_stream.c
index c8fd985..688e280 100644
--- a/src/viriatum_commons/stream/memory_stream.c
+++ b/src/viriatum_commons/stream/memory_stream.c
@@ -98,9 +98,12 @@ void close_memory_stream(struct stream_t *stream) {
 size_t read_memory_stream(struct stream_t *stream, unsigned char *buffer, size_t size) {
     struct memory_stream_t *memory_stream =\
         (struct memory_stream_t *) stream->lower;
-    size_t remaining = memory_stream->size - memory_stream->position;
+    size_t remaining = memory_stream->position < memory_stream->size ?
+        memory_stream->size - memory_stream->position : 0;
     size_t count = size > remaining ? remaining : size;
-    unsigned char *pointer = &memory_stream->buffer[memory_stream->position];
+    unsigned char *pointer = memory_stream->buffer + memory_stream->position;
+
+    if(count == 0) { return 0; }
 
     memcpy(buffer, pointer, count);
     memory_stream->position += count;
@@ -114,10 +117,12 @@ size_t write_memory_stream(struct stream_t *stream, unsigned char *buffer, size_
     unsigned char *pointer;
     struct memory_stream_t *memory_stream =\
         (struct memory_stream_t *) stream->lower;
-    size_t remaining = memory_stream->buffer_size - memory_stream->position;
+    size_t required = memory_stream->position + size;
+
+    if(size == 0) { return 0; }
 
-    if(size > remaining) {
-        extra = size - remaining;
+    if(required > memory_stream->buffer_size) {
+        extra = required - memory_stream->buffer_size;
         allocation = extra > SIZE_MEMORY_STREAM ? extra : SIZE_MEMORY_STREAM;
         memory_stream->buffer_size += allocation;
         memory_stream->buffer =    REALLOC(
@@ -126,10 +131,21 @@ size_t write_memory_stream(struct stream_t *stream, unsigned char *buffer, size_
         );
     }
 
+    /* fills the gap left by a seek operation past the end */
+    if(memory_stream->position > memory_stream->size) {
+        memset(
+            memory_stream->buffer + memory_stream->size,
+            0,
+            memory_stream->position - memory_stream->size
+        );
+    }
+
     pointer = &memory_stream->buffer[memory_stream->position];
     memcpy(pointer, buffer, size);
     memory_stream->position += size;
-    memory_stream->size += size;
+    if(memory_stream->position > memory_stream->size) {
+        memory_stream->size = memory_stream->position;
+    }
 
     return size;
 }
-- 
2.43.0


From 68c1813b2f2312f32544b910d9e8ce9c98bcae50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:10 +0000
Subject: [PATCH 48/96] fix: huffman tables of empty streams crashed and single
 symbols had no code

---
 src/viriatum_commons/compression/huffman.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/viriatum_commons/compression/huffman.c b/src/viriatum_commons/compression/huffman.c
index da168ce..becc932 100644
--- a/src/viriatum_commons/compression/huffman.c
+++ b/src/viriatum_commons/compression/huffman.c
@@ -430,6 +430,20 @@ void generate_table_huffman(struct huffman_t *huffman, struct stream_t *stream)
         push_priority_queue(queue, (void *) node);
     }
 
+    /* in case there are no symbols in the stream there's no tree
+    to be created and both the coding and decoding are empty */
+    if(queue->size == 0) {
+        delete_priority_queue(queue);
+        return;
+    }
+
+    /* in case there's only one symbol in the stream a sibling node
+    is added so that the symbol is represented by one bit */
+    if(queue->size == 1) {
+        create_huffman_node(&node);
+        push_priority_queue(queue, (void *) node);
+    }
+
     /* iterates continuously creating the huffman tree using
     the pre-defined algorithm of frequecies */
     while(TRUE) {
-- 
2.43.0


From 7b1081755120b3f7a1909e7df2823c43fa4cda2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:39 +0000
Subject: [PATCH 49/96] fix: huffman codes larger than 16 bits were truncated

---
 src/viriatum_commons/compression/huffman.c | 32 ++++++++++++++++++----
 src/viriatum_commons/compression/huffman.h | 10 +++++--
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/viriatum_commons/compression/huffman.c b/src/viriatum_commons/compression/huffman.c
index becc932..1af35ef 100644
--- a/src/viriatum_commons/compression/huffman.c
+++ b/src/viriatum_commons/compression/huffman.c
@@ -98,6 +98,7 @@ void encode_huffman(struct huffman_t *huffman, struct stream_t *in, struct strea
     size_t count;
     size_t index;
     unsigned char byte;
+    unsigned char bit_count;
     struct huffman_node_t *node;
     struct bit_stream_t *bit_stream;
     unsigned char buffer[HUFFMAN_BUFFER_SIZE];
@@ -137,10 +138,22 @@ void encode_huffman(struct huffman_t *huffman, struct stream_t *in, struct strea
             node and then writes into the bit stream the code representing
             the current byte using the current huffman tree */
             huffman->bit_count += node->bit_count;
+
+            /* codes larger than one word are written in parts, starting
+            with the most significant one */
+            bit_count = node->bit_count;
+            while(bit_count > HUFFMAN_WORD_SIZE) {
+                bit_count -= HUFFMAN_WORD_SIZE;
+                write_word_bit_stream(
+                    bit_stream,
+                    (unsigned short) (node->code >> bit_count),
+                    HUFFMAN_WORD_SIZE
+                );
+            }
             write_word_bit_stream(
                 bit_stream,
-                node->code,
-                node->bit_count
+                (unsigned short) (node->code & ((1ULL << bit_count) - 1)),
+                bit_count
             );
         }
     }
@@ -350,10 +363,17 @@ void generate_prefix_huffman(struct huffman_t *huffman) {
     unsigned char extra;
     struct huffman_node_t *node;
 
+    size_t prefix_range;
+    size_t prefix_size;
+
+    /* in case the codes are larger than one word there's no table
+    able to represent them and the tree is used for decoding */
+    if(huffman->prefix_size > HUFFMAN_WORD_SIZE) { return; }
+
     /* calculates the range of prefix using the prefix size
     then calculates the size of each of the prefix tables */
-    size_t prefix_range = 1 << huffman->prefix_size;
-    size_t prefix_size = prefix_range * sizeof(unsigned char);
+    prefix_range = 1 << huffman->prefix_size;
+    prefix_size = prefix_range * sizeof(unsigned char);
 
     /* allocates space for each of the prefix tables, one for
     the prefix to code association and other for the prefix to
@@ -376,7 +396,7 @@ void generate_prefix_huffman(struct huffman_t *huffman) {
         current symbol's huffman code as the (maximum) prefix size
         minus the current's huffman code bit count */
         symbol = node->symbol;
-        code = node->code;
+        code = (unsigned short) node->code;
         extra = huffman->prefix_size - node->bit_count;
 
         /* runs the recursive based filling operation of the prefix
@@ -530,7 +550,7 @@ void calc_freqs_huffman(struct huffman_t *huffman, struct stream_t *stream) {
 void allocate_tree_huffman(
     struct huffman_t *huffman,
     struct huffman_node_t *node,
-    unsigned short code,
+    unsigned long long code,
     unsigned char bit_count
 ) {
     unsigned char is_larger;
diff --git a/src/viriatum_commons/compression/huffman.h b/src/viriatum_commons/compression/huffman.h
index 54f6c93..051649f 100644
--- a/src/viriatum_commons/compression/huffman.h
+++ b/src/viriatum_commons/compression/huffman.h
@@ -37,6 +37,12 @@
  */
 #define HUFFMAN_BYTE_SIZE 8
 
+/**
+ * The (maximum) number of bits of a code
+ * that are written in one operation.
+ */
+#define HUFFMAN_WORD_SIZE 16
+
 /**
  * The range of code values that are allowed for
  * an huffman structure, this value should match
@@ -69,7 +75,7 @@ typedef struct huffman_node_t {
     struct huffman_node_t *right;
     size_t value;
     unsigned char symbol;
-    unsigned short code;
+    unsigned long long code;
     unsigned char bit_count;
 } huffman_node;
 
@@ -154,7 +160,7 @@ VIRIATUM_EXPORT_PREFIX void calc_freqs_huffman(struct huffman_t *huffman, struct
 VIRIATUM_EXPORT_PREFIX void allocate_tree_huffman(
     struct huffman_t *huffman,
     struct huffman_node_t *node,
-    unsigned short code,
+    unsigned long long code,
     unsigned char bit_count
 );
 VIRIATUM_EXPORT_PREFIX void _fill_prefix_huffman(
-- 
2.43.0


From 7486c58af41e01a1ad39d1b09f45106b72eeb327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:42 +0000
Subject: [PATCH 50/96] fix: every dictionary of a bencoded buffer created and
 leaked extra maps

---
 src/viriatum_commons/encoding/bencoding.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/viriatum_commons/encoding/bencoding.c b/src/viriatum_commons/encoding/bencoding.c
index b2b5334..2db6599 100644
--- a/src/viriatum_commons/encoding/bencoding.c
+++ b/src/viriatum_commons/encoding/bencoding.c
@@ -667,6 +667,9 @@ ERROR_CODE _bencoding_dictionary_start_callback(struct bencoding_engine_t *benco
             create_type(&type, MAP_TYPE);
             *type = map_type(hash_map);
 
+            /* breaks the switch */
+            break;
+
         case SORT_MAP_TYPE:
             /* creates a new sort map for the new structure (sequence) context
             and then creates the respective type for the map */
@@ -674,6 +677,9 @@ ERROR_CODE _bencoding_dictionary_start_callback(struct bencoding_engine_t *benco
             create_type(&type, SORT_MAP_TYPE);
             *type = sort_map_type(sort_map);
 
+            /* breaks the switch */
+            break;
+
         default:
             /* creates a new sort map for the new structure (sequence) context
             and then creates the respective type for the map */
-- 
2.43.0


From 7f2304ae73da61952cadbf0c70cbe3173c360d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:42 +0000
Subject: [PATCH 51/96] fix: encoding to a bencoding file leaked the encoded
 buffer

---
 src/viriatum_commons/encoding/bencoding.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/viriatum_commons/encoding/bencoding.c b/src/viriatum_commons/encoding/bencoding.c
index 2db6599..9d0dffd 100644
--- a/src/viriatum_commons/encoding/bencoding.c
+++ b/src/viriatum_commons/encoding/bencoding.c
@@ -147,6 +147,9 @@ ERROR_CODE encode_bencoding_file(char *file_path, struct type_t *type) {
     encode_bencoding(type, &encoded_buffer, &encoded_buffer_length);
     write_file(file_path, encoded_buffer, encoded_buffer_length);
 
+    /* releases the encoded buffer (avoids memory leaks) */
+    FREE(encoded_buffer);
+
     /* raises no error */
     RAISE_NO_ERROR;
 }
-- 
2.43.0


From f5f2c2bc4eba6a428f257155d15fec190098982e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:42 +0000
Subject: [PATCH 52/96] fix: integers and strings at the top of a bencoded
 buffer were not decoded

---
 src/viriatum_commons/encoding/bencoding.c | 30 +++++++++++++----------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/viriatum_commons/encoding/bencoding.c b/src/viriatum_commons/encoding/bencoding.c
index 9d0dffd..f0239f0 100644
--- a/src/viriatum_commons/encoding/bencoding.c
+++ b/src/viriatum_commons/encoding/bencoding.c
@@ -472,15 +472,15 @@ ERROR_CODE _bencoding_integer_end_callback(struct bencoding_engine_t *bencoding_
     memcpy(integer, pointer, size);
     integer[size] = '\0';
 
+    /* converts the integer string into an integer value, then creates
+    the type structure for the integer and sets it as an integer value */
+    _integer = atoi(integer);
+    create_type(&type, INTEGER_TYPE);
+    *type = integer_type(_integer);
+
     /* in case the sequence type is defined the integer must
     be a value and must be associated with the sequence */
     if(bencoding_handler->sequence != NULL) {
-        /* converts the integer string into an integer value, then creates
-        the type structure for the integer and sets it as an integer value */
-        _integer = atoi(integer);
-        create_type(&type, INTEGER_TYPE);
-        *type = integer_type(_integer);
-
         /* switches over the type of current sequence to
         execute the proper operations */
         switch(bencoding_handler->sequence->type) {
@@ -551,15 +551,19 @@ ERROR_CODE _bencoding_string_end_callback(struct bencoding_engine_t *bencoding_e
         if(bencoding_handler->key != NULL) { FREE(bencoding_handler->key); }
         bencoding_handler->key = (unsigned char *) string;
         bencoding_handler->next_key = 0;
+
+        /* raises no error */
+        RAISE_NO_ERROR;
     }
-    /* otherwise in case the sequence type is defined the string must
-    be a value and must be associated with the sequence */
-    else if(bencoding_handler->sequence != NULL) {
-        /* creates a new type structure for the string
-        and sets it with the correct string value */
-        create_type(&type, STRING_TYPE);
-        *type = buffer_type(string, size);
 
+    /* creates a new type structure for the string
+    and sets it with the correct string value */
+    create_type(&type, STRING_TYPE);
+    *type = buffer_type(string, size);
+
+    /* in case the sequence type is defined the string must
+    be a value and must be associated with the sequence */
+    if(bencoding_handler->sequence != NULL) {
         /* switches over the type of current sequence to
         execute the proper operations */
         switch(bencoding_handler->sequence->type) {
-- 
2.43.0


From 564e9850ea6d1620164b09ed5ed0f51adaa0090c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:40 +0000
Subject: [PATCH 53/96] fix: empty strings of a bencoded buffer swallowed what
 followed them

---
 src/viriatum_commons/encoding/bencoding.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/viriatum_commons/encoding/bencoding.c b/src/viriatum_commons/encoding/bencoding.c
index f0239f0..1b96f89 100644
--- a/src/viriatum_commons/encoding/bencoding.c
+++ b/src/viriatum_commons/encoding/bencoding.c
@@ -434,6 +434,14 @@ ERROR_CODE _run_bencoding_engine(struct bencoding_engine_t *bencoding_engine, un
 
                     BENCODING_MARK_N(string_end, -1);
                     BENCODING_CALLBACK(string_start);
+
+                    /* an empty string has no contents and so it
+                    ends immediately */
+                    if(string_size == 0) {
+                        state = BENCODING_ENGINE_NORMAL;
+
+                        BENCODING_CALLBACK_DATA_N(string_end, -1);
+                    }
                 } else {
                     string_size *= 10;
                     string_size += character - '0';
-- 
2.43.0


From 812318ffb5927421f045cd750f54ea57b9474fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:53 +0000
Subject: [PATCH 54/96] fix: malformed bencoded buffers crashed the decoder or
 leaked their values

---
 src/viriatum/stream/stream_httpc.c        |   3 +-
 src/viriatum_commons/encoding/bencoding.c | 145 +++++++++++++++++++++-
 src/viriatum_commons/encoding/bencoding.h |   3 +
 3 files changed, 144 insertions(+), 7 deletions(-)

diff --git a/src/viriatum/stream/stream_httpc.c b/src/viriatum/stream/stream_httpc.c
index 0e235be..393a7d3 100644
--- a/src/viriatum/stream/stream_httpc.c
+++ b/src/viriatum/stream/stream_httpc.c
@@ -37,7 +37,8 @@
 ERROR_CODE body_callback_handler_client(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     struct type_t *type;
 
-    decode_bencoding((unsigned char *) data, data_size, &type);
+    ERROR_CODE return_value = decode_bencoding((unsigned char *) data, data_size, &type);
+    if(IS_ERROR_CODE(return_value)) { RAISE_NO_ERROR; }
     print_type(type);
     free_type(type);
 
diff --git a/src/viriatum_commons/encoding/bencoding.c b/src/viriatum_commons/encoding/bencoding.c
index 1b96f89..455fe85 100644
--- a/src/viriatum_commons/encoding/bencoding.c
+++ b/src/viriatum_commons/encoding/bencoding.c
@@ -77,8 +77,11 @@ void create_bencoding_handler(struct bencoding_handler_t **bencoding_handler_poi
 void delete_bencoding_handler(struct bencoding_handler_t *bencoding_handler) {
     /* in case the sequence stack and the key stack are defined releases
     their memory to avoid any leaks */
-    if(bencoding_handler->sequence_stack) { FREE(bencoding_handler->sequence_stack); }
-    if(bencoding_handler->key_stack) { FREE(bencoding_handler->key_stack); }
+    if(bencoding_handler->sequence_stack) { delete_linked_list(bencoding_handler->sequence_stack); }
+    if(bencoding_handler->key_stack) { delete_linked_list(bencoding_handler->key_stack); }
+
+    /* in case there's a pending key releases its memory */
+    if(bencoding_handler->key) { FREE(bencoding_handler->key); }
 
     /* releases the bencoding handler */
     FREE(bencoding_handler);
@@ -113,6 +116,7 @@ ERROR_CODE encode_bencoding(struct type_t *type, unsigned char **encoded_puffer_
 ERROR_CODE decode_bencoding(unsigned char *encoded_buffer, size_t encoded_buffer_length, struct type_t **type_pointer) {
     /* allocates space for the general (temporary) variables
     to be used durring the parsing of the buffer */
+    ERROR_CODE return_value;
     struct bencoding_engine_t *bencoding_engine;
     struct bencoding_handler_t *bencoding_handler;
 
@@ -120,7 +124,18 @@ ERROR_CODE decode_bencoding(unsigned char *encoded_buffer, size_t encoded_buffer
     structures and then runs an engine tick parsing the complete
     file buffer (it's completely available) */
     _start_bencoding_engine(&bencoding_engine);
-    _run_bencoding_engine(bencoding_engine, encoded_buffer, encoded_buffer_length);
+    return_value = _run_bencoding_engine(bencoding_engine, encoded_buffer, encoded_buffer_length);
+
+    /* in case the buffer is not valid or complete the values that
+    were created for it are released and an error is raised */
+    if(IS_ERROR_CODE(return_value) || _is_complete_bencoding(bencoding_engine) == FALSE) {
+        _discard_bencoding(bencoding_engine);
+        _stop_bencoding_engine(bencoding_engine);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Invalid bencoding buffer"
+        );
+    }
 
     /* retieves the handler associated with the engine and then
     uses it to retrieve the top type of the parsed structure */
@@ -179,7 +194,20 @@ ERROR_CODE decode_bencoding_file(char *file_path, struct type_t **type_pointer)
     structures and then runs an engine tick parsing the complete
     file buffer (it's completely available) */
     _start_bencoding_engine(&bencoding_engine);
-    _run_bencoding_engine(bencoding_engine, file_buffer, file_size);
+    return_value = _run_bencoding_engine(bencoding_engine, file_buffer, file_size);
+
+    /* in case the file is not valid or complete the values that
+    were created for it are released and an error is raised */
+    if(IS_ERROR_CODE(return_value) || _is_complete_bencoding(bencoding_engine) == FALSE) {
+        _discard_bencoding(bencoding_engine);
+        _stop_bencoding_engine(bencoding_engine);
+        FREE(file_buffer);
+        RAISE_ERROR_F(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Invalid bencoding file %s",
+            file_path
+        );
+    }
 
     /* retieves the handler associated with the engine and then
     uses it to retrieve the top type of the parsed structure */
@@ -345,6 +373,10 @@ ERROR_CODE _run_bencoding_engine(struct bencoding_engine_t *bencoding_engine, un
     unsigned char character;
     enum bencoding_state_e state;
 
+    /* retrieves the handler associated with the engine, used
+    to detect the end of the top value */
+    struct bencoding_handler_t *bencoding_handler = (struct bencoding_handler_t *) bencoding_engine->context;
+
     /* allocates the mark variables used to locate
     the part of context changing durring the parsing */
     unsigned char *pointer = 0;
@@ -370,6 +402,12 @@ ERROR_CODE _run_bencoding_engine(struct bencoding_engine_t *bencoding_engine, un
         character = buffer[index];
         pointer = &buffer[index];
 
+        /* in case the top value is already complete the remaining
+        data is not part of it and is ignored */
+        if(state == BENCODING_ENGINE_NORMAL && bencoding_handler->top != NULL && bencoding_handler->sequence == NULL) {
+            break;
+        }
+
         switch(state) {
             case BENCODING_ENGINE_NORMAL:
                 switch(character) {
@@ -400,6 +438,13 @@ ERROR_CODE _run_bencoding_engine(struct bencoding_engine_t *bencoding_engine, un
                         break;
 
                     default:
+                        if(character < '0' || character > '9') {
+                            RAISE_ERROR_M(
+                                RUNTIME_EXCEPTION_ERROR_CODE,
+                                (unsigned char *) "Invalid bencoding character"
+                            );
+                        }
+
                         state = BENCODING_ENGINE_STRING_SIZE;
                         string_size = character - '0';
 
@@ -443,6 +488,13 @@ ERROR_CODE _run_bencoding_engine(struct bencoding_engine_t *bencoding_engine, un
                         BENCODING_CALLBACK_DATA_N(string_end, -1);
                     }
                 } else {
+                    if(character < '0' || character > '9') {
+                        RAISE_ERROR_M(
+                            RUNTIME_EXCEPTION_ERROR_CODE,
+                            (unsigned char *) "Invalid bencoding string size"
+                        );
+                    }
+
                     string_size *= 10;
                     string_size += character - '0';
                 }
@@ -474,9 +526,16 @@ ERROR_CODE _bencoding_integer_end_callback(struct bencoding_engine_t *bencoding_
     then uses it to store the (current) value */
     struct bencoding_handler_t *bencoding_handler = (struct bencoding_handler_t *) bencoding_engine->context;
 
+    char *integer;
+
+    /* in case a key is expected the value is not valid */
+    if(bencoding_handler->next_key == 1) {
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Invalid bencoding key");
+    }
+
     /* allocates space for the integer string value and then copies
     the data buffer into it and terminates the null string */
-    char *integer = MALLOC(size + 1);
+    integer = MALLOC(size + 1);
     memcpy(integer, pointer, size);
     integer[size] = '\0';
 
@@ -502,6 +561,7 @@ ERROR_CODE _bencoding_integer_end_callback(struct bencoding_engine_t *bencoding_
             case MAP_TYPE:
                 /* sets the value in the map for the current key and sets the next key
                 flag so that the next string is saved as a key */
+                _release_key_bencoding(bencoding_handler->sequence, bencoding_handler->key);
                 set_value_string_hash_map(bencoding_handler->sequence->value.value_map, bencoding_handler->key, (void *) type);
                 bencoding_handler->next_key = 1;
 
@@ -511,6 +571,7 @@ ERROR_CODE _bencoding_integer_end_callback(struct bencoding_engine_t *bencoding_
             case SORT_MAP_TYPE:
                 /* sets the value in the map for the current key and sets the next key
                 flag so that the next string is saved as a key */
+                _release_key_bencoding(bencoding_handler->sequence, bencoding_handler->key);
                 set_value_string_sort_map(bencoding_handler->sequence->value.value_sort_map, bencoding_handler->key, (void *) type);
                 bencoding_handler->next_key = 1;
 
@@ -588,6 +649,7 @@ ERROR_CODE _bencoding_string_end_callback(struct bencoding_engine_t *bencoding_e
             case MAP_TYPE:
                 /* sets the value in the map for the current key and sets the next key
                 flag so that the next string is saved as a key */
+                _release_key_bencoding(bencoding_handler->sequence, bencoding_handler->key);
                 set_value_string_hash_map(
                     bencoding_handler->sequence->value.value_map,
                     bencoding_handler->key,
@@ -601,6 +663,7 @@ ERROR_CODE _bencoding_string_end_callback(struct bencoding_engine_t *bencoding_e
             case SORT_MAP_TYPE:
                 /* sets the value in the map for the current key and sets the next key
                 flag so that the next string is saved as a key */
+                _release_key_bencoding(bencoding_handler->sequence, bencoding_handler->key);
                 set_value_string_sort_map(
                     bencoding_handler->sequence->value.value_sort_map,
                     bencoding_handler->key,
@@ -635,6 +698,11 @@ ERROR_CODE _bencoding_list_start_callback(struct bencoding_engine_t *bencoding_e
     then uses it to store the (current) value */
     struct bencoding_handler_t *bencoding_handler = (struct bencoding_handler_t *) bencoding_engine->context;
 
+    /* in case a key is expected the value is not valid */
+    if(bencoding_handler->next_key == 1) {
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Invalid bencoding key");
+    }
+
     /* creates a new linked list for the new structure (sequence) context
     and then creates the respective type for the list */
     create_linked_list(&list);
@@ -672,6 +740,11 @@ ERROR_CODE _bencoding_dictionary_start_callback(struct bencoding_engine_t *benco
     then uses it to store the (current) value */
     struct bencoding_handler_t *bencoding_handler = (struct bencoding_handler_t *) bencoding_engine->context;
 
+    /* in case a key is expected the value is not valid */
+    if(bencoding_handler->next_key == 1) {
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Invalid bencoding key");
+    }
+
     /* switchs over the "target" map type to be used to store conceptual
     maps in the bencoding structure */
     switch(bencoding_engine->map_type) {
@@ -734,6 +807,13 @@ ERROR_CODE _bencoding_sequence_end_callback(struct bencoding_engine_t *bencoding
     then uses it to store the (current) value */
     struct bencoding_handler_t *bencoding_handler = (struct bencoding_handler_t *) bencoding_engine->context;
 
+    /* in case there's no sequence to be ended or there's a key without
+    a value the end is not valid */
+    if(bencoding_handler->sequence == NULL ||
+        (bencoding_handler->sequence->type != LIST_TYPE && bencoding_handler->next_key == 0)) {
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Invalid bencoding end");
+    }
+
     /* pops the current key in the stack and the current sequence in the
     stack (these are the current values), then peeks the current sequence
     in the stack (in case it exists) it should represent the sequence to
@@ -755,7 +835,7 @@ ERROR_CODE _bencoding_sequence_end_callback(struct bencoding_engine_t *bencoding
     /* in case there is no sequence defined for the current handler context
     no need to continue the processing (nothing to be assiciated) this is
     typical for the top level of parsing */
-    if(bencoding_handler->sequence == NULL) { RAISE_NO_ERROR; }
+    if(bencoding_handler->sequence == NULL) { bencoding_handler->next_key = 0; RAISE_NO_ERROR; }
 
     /* swithces over the sequence type to take the appropriate action of
     setting the lower (previous) context in the upper (current) context */
@@ -775,6 +855,7 @@ ERROR_CODE _bencoding_sequence_end_callback(struct bencoding_engine_t *bencoding
         case MAP_TYPE:
             /* sets the lower value in the upper map for the current key
             this is the lower upper layer association */
+            _release_key_bencoding(bencoding_handler->sequence, key);
             set_value_string_hash_map(bencoding_handler->sequence->value.value_map, key, (void *) sequence);
 
             /* sets the retrieved key as the current key and
@@ -788,6 +869,7 @@ ERROR_CODE _bencoding_sequence_end_callback(struct bencoding_engine_t *bencoding
         case SORT_MAP_TYPE:
             /* sets the lower value in the upper map for the current key
             this is the lower upper layer association */
+            _release_key_bencoding(bencoding_handler->sequence, key);
             set_value_string_sort_map(bencoding_handler->sequence->value.value_sort_map, key, (void *) sequence);
 
             /* sets the retrieved key as the current key and
@@ -806,3 +888,54 @@ ERROR_CODE _bencoding_sequence_end_callback(struct bencoding_engine_t *bencoding
     /* raises no error */
     RAISE_NO_ERROR;
 }
+
+unsigned char _is_complete_bencoding(struct bencoding_engine_t *bencoding_engine) {
+    struct bencoding_handler_t *bencoding_handler = (struct bencoding_handler_t *) bencoding_engine->context;
+
+    /* a buffer is complete when its top value is defined and there are
+    no pending (not closed) tokens or sequences */
+    return bencoding_engine->state == BENCODING_ENGINE_NORMAL &&
+        bencoding_handler->top != NULL &&
+        bencoding_handler->sequence == NULL;
+}
+
+void _discard_bencoding(struct bencoding_engine_t *bencoding_engine) {
+    unsigned char *key;
+    struct type_t *sequence;
+    struct bencoding_handler_t *bencoding_handler = (struct bencoding_handler_t *) bencoding_engine->context;
+
+    /* in case there are no open sequences the top value (if it exists)
+    is complete and must be released by itself */
+    if(bencoding_handler->sequence_stack->size == 0 && bencoding_handler->top != NULL) {
+        free_type(bencoding_handler->top);
+    }
+
+    /* releases the open sequences, none of them is yet part of
+    its parent, the first one is the top value */
+    while(bencoding_handler->sequence_stack->size > 0) {
+        pop_value_linked_list(bencoding_handler->sequence_stack, (void **) &sequence, 1);
+        free_type(sequence);
+    }
+
+    /* releases the keys that are waiting for the open sequences */
+    while(bencoding_handler->key_stack->size > 0) {
+        pop_value_linked_list(bencoding_handler->key_stack, (void **) &key, 1);
+        if(key != NULL) { FREE(key); }
+    }
+
+    bencoding_handler->top = NULL;
+    bencoding_handler->sequence = NULL;
+}
+
+void _release_key_bencoding(struct type_t *sequence, unsigned char *key) {
+    struct type_t *type = NULL;
+
+    /* retrieves the value previously set for the key and in
+    case it exists releases it as it's going to be replaced */
+    if(sequence->type == MAP_TYPE) {
+        get_value_string_hash_map(sequence->value.value_map, key, (void **) &type);
+    } else {
+        get_value_string_sort_map(sequence->value.value_sort_map, key, (void **) &type);
+    }
+    if(type != NULL) { free_type(type); }
+}
diff --git a/src/viriatum_commons/encoding/bencoding.h b/src/viriatum_commons/encoding/bencoding.h
index 2dbfc90..d8297c5 100644
--- a/src/viriatum_commons/encoding/bencoding.h
+++ b/src/viriatum_commons/encoding/bencoding.h
@@ -120,3 +120,6 @@ VIRIATUM_EXPORT_PREFIX ERROR_CODE _bencoding_string_end_callback(struct bencodin
 VIRIATUM_EXPORT_PREFIX ERROR_CODE _bencoding_list_start_callback(struct bencoding_engine_t *bencoding_engine);
 VIRIATUM_EXPORT_PREFIX ERROR_CODE _bencoding_dictionary_start_callback(struct bencoding_engine_t *bencoding_engine);
 VIRIATUM_EXPORT_PREFIX ERROR_CODE _bencoding_sequence_end_callback(struct bencoding_engine_t *bencoding_engine);
+VIRIATUM_EXPORT_PREFIX unsigned char _is_complete_bencoding(struct bencoding_engine_t *bencoding_engine);
+VIRIATUM_EXPORT_PREFIX void _discard_bencoding(struct bencoding_engine_t *bencoding_engine);
+VIRIATUM_EXPORT_PREFIX void _release_key_bencoding(struct type_t *sequence, unsigned char *key);
-- 
2.43.0


From 5a10336b05c72503d7755c5b4672c8be92b8b6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:18 +0000
Subject: [PATCH 55/96] fix: fragments of URLs without a query were taken as
 part of the path

---
 src/viriatum_commons/formats/url.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/viriatum_commons/formats/url.c b/src/viriatum_commons/formats/url.c
index 95ff5c9..6742eba 100644
--- a/src/viriatum_commons/formats/url.c
+++ b/src/viriatum_commons/formats/url.c
@@ -170,6 +170,14 @@ ERROR_CODE parse_url(char *url, size_t url_size, struct url_t *url_s) {
                         state = QUERY_STATE;
                         mark = pointer + 1;
                         break;
+
+                    case '#':
+                        length = pointer - mark;
+                        url_s->path.buffer = mark;
+                        url_s->path.length = length;
+                        state = FRAGMENT_STATE;
+                        mark = pointer + 1;
+                        break;
                 }
 
                 break;
-- 
2.43.0


From f16cafd5bb66e907b7fa5c0b05707a769484bf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:32 +0000
Subject: [PATCH 56/96] fix: long parts of URLs overflowed the static structure
 and changed its password

---
 src/viriatum_commons/formats/url.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/viriatum_commons/formats/url.c b/src/viriatum_commons/formats/url.c
index 6742eba..a3275be 100644
--- a/src/viriatum_commons/formats/url.c
+++ b/src/viriatum_commons/formats/url.c
@@ -56,6 +56,7 @@ ERROR_CODE parse_url(char *url, size_t url_size, struct url_t *url_s) {
     /* sets the URL pointer as the initial mark value and also
     sets the initial state of the parsing as the scheme state */
     mark = (unsigned char *) url;
+    pointer = (unsigned char *) url;
     state = SCHEME_STATE;
 
     /* iterate over the complete URL buffer to try to gather
@@ -255,6 +256,7 @@ ERROR_CODE parse_url(char *url, size_t url_size, struct url_t *url_s) {
     }
 
     if(url_s->port_s.buffer != NULL) {
+        if(url_s->port_s.length >= sizeof(buffer)) { goto error; }
         memcpy(buffer, url_s->port_s.buffer, url_s->port_s.length);
         buffer[url_s->port_s.length] = '\0';
 
@@ -279,6 +281,8 @@ ERROR_CODE parse_url_static(char *url, size_t url_size, struct url_static_t *url
     to be used as basis for the construction of the static one */
     struct url_t _url_s;
 
+    memset(url_s, 0, sizeof(struct url_static_t));
+
     error = parse_url(url, url_size, &_url_s);
     if(error) {
         RAISE_ERROR_M(
@@ -287,7 +291,20 @@ ERROR_CODE parse_url_static(char *url, size_t url_size, struct url_static_t *url
         );
     }
 
-    memset(url_s, 0, sizeof(struct url_static_t));
+    /* verifies that every part of the URL (and the end of string
+    character) fits in the static structure, no truncation is allowed */
+    if(_url_s.scheme.length >= sizeof(url_s->scheme) ||
+        _url_s.username.length >= sizeof(url_s->username) ||
+        _url_s.password.length >= sizeof(url_s->password) ||
+        _url_s.host.length >= sizeof(url_s->host) ||
+        _url_s.path.length >= sizeof(url_s->path) ||
+        _url_s.query.length >= sizeof(url_s->query) ||
+        _url_s.fragment.length >= sizeof(url_s->fragment)) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "URL part too long"
+        );
+    }
 
     if(_url_s.scheme.buffer != NULL) {
         memcpy(url_s->scheme, _url_s.scheme.buffer, _url_s.scheme.length);
@@ -306,24 +323,24 @@ ERROR_CODE parse_url_static(char *url, size_t url_size, struct url_static_t *url
 
     if(_url_s.host.buffer != NULL) {
         memcpy(url_s->host, _url_s.host.buffer, _url_s.host.length);
-        url_s->password[_url_s.host.length] = '\0';
+        url_s->host[_url_s.host.length] = '\0';
     }
 
     if(_url_s.port != 0) { url_s->port = _url_s.port; }
 
     if(_url_s.path.buffer != NULL) {
         memcpy(url_s->path, _url_s.path.buffer, _url_s.path.length);
-        url_s->password[_url_s.path.length] = '\0';
+        url_s->path[_url_s.path.length] = '\0';
     }
 
     if(_url_s.query.buffer != NULL) {
         memcpy(url_s->query, _url_s.query.buffer, _url_s.query.length);
-        url_s->password[_url_s.query.length] = '\0';
+        url_s->query[_url_s.query.length] = '\0';
     }
 
     if(_url_s.fragment.buffer != NULL) {
         memcpy(url_s->fragment, _url_s.fragment.buffer, _url_s.fragment.length);
-        url_s->password[_url_s.fragment.length] = '\0';
+        url_s->fragment[_url_s.fragment.length] = '\0';
     }
 
     RAISE_NO_ERROR;
-- 
2.43.0


From 8965f6ddd4e4065c0d51a61d7ca7c6d9aae12d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:42 +0000
Subject: [PATCH 57/96] fix: users repeated in a passwd file leaked their
 previous passwords

---
 src/viriatum_commons/formats/passwd.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/viriatum_commons/formats/passwd.c b/src/viriatum_commons/formats/passwd.c
index 5b2e94f..c205421 100644
--- a/src/viriatum_commons/formats/passwd.c
+++ b/src/viriatum_commons/formats/passwd.c
@@ -56,6 +56,7 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
     (static memory) as it's not going to be stored in map */
     char username[128];
     char *password;
+    void *previous;
 
     /* creates the "final" hash map that is going to be used to
     associated a username with a password and then allocates the
@@ -120,6 +121,15 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
                         memcpy(password, mark, length);
                         password[length] = '\0';
                         mark = pointer + 1;
+
+                        /* the last password of a user is the one that prevails,
+                        releases the one that is going to be replaced */
+                        get_value_string_hash_map(
+                            passwd,
+                            (unsigned char *) username,
+                            &previous
+                        );
+                        if(previous != NULL) { FREE(previous); }
                         set_value_string_hash_map(
                             passwd,
                             (unsigned char *) username,
-- 
2.43.0


From 43123d140970a0773ef9cea021c062583af6a037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:15 +0000
Subject: [PATCH 58/96] fix: the last value of an ini file was lost when there
 is no end of line after it

---
 src/viriatum_commons/ini/ini.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/viriatum_commons/ini/ini.c b/src/viriatum_commons/ini/ini.c
index e7d90e9..67163fb 100644
--- a/src/viriatum_commons/ini/ini.c
+++ b/src/viriatum_commons/ini/ini.c
@@ -178,6 +178,13 @@ ERROR_CODE process_ini_file(char *file_path, struct sort_map_t **configuration_p
         }
     }
 
+    /* in case the file ends inside of a value, there is no end
+    of line to finish it and so it must be finished now */
+    if(state == INI_ENGINE_VALUE) {
+        pointer = &file_buffer[file_size];
+        INI_CALLBACK_DATA(value_end);
+    }
+
     /* releases the buffer used durring the parsing of
     the configuration file (avoids leaks) */
     FREE(file_buffer);
-- 
2.43.0


From 1251d52e0e6c7b813d850f3a4093f0d1bee359c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:15 +0000
Subject: [PATCH 59/96] fix: lines of ini files without a value or indented
 changed the lines after them

---
 src/viriatum_commons/ini/ini.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/viriatum_commons/ini/ini.c b/src/viriatum_commons/ini/ini.c
index 67163fb..a5c64e4 100644
--- a/src/viriatum_commons/ini/ini.c
+++ b/src/viriatum_commons/ini/ini.c
@@ -127,7 +127,7 @@ ERROR_CODE process_ini_file(char *file_path, struct sort_map_t **configuration_p
 
                     INI_MARK_N(comment_end, -1);
                     INI_CALLBACK(comment_start);
-                } else if(character == '\n' || character == '\r') {
+                } else if(character == '\n' || character == '\r' || character == ' ' || character == '\t') {
                     state = INI_ENGINE_NORMAL;
                 } else {
                     state = INI_ENGINE_KEY;
@@ -163,6 +163,10 @@ ERROR_CODE process_ini_file(char *file_path, struct sort_map_t **configuration_p
                     INI_MARK_N(value_end, -1);
                     INI_CALLBACK_DATA(key_end);
                     INI_CALLBACK(value_start);
+                } else if(character == '\n' || character == '\r') {
+                    /* there is no value in this line, ignores it
+                    so that the following one is not part of it */
+                    state = INI_ENGINE_NORMAL;
                 }
 
                 break;
-- 
2.43.0


From 68d0558d678c981fcf03a6d39076a3a4dc38ef82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:15 +0000
Subject: [PATCH 60/96] fix: long names, missing sections and empty values of
 ini files were handled out of bounds

---
 src/viriatum_commons/ini/ini.c          | 3 +++
 src/viriatum_commons/util/string_util.h | 6 ++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/viriatum_commons/ini/ini.c b/src/viriatum_commons/ini/ini.c
index a5c64e4..884218e 100644
--- a/src/viriatum_commons/ini/ini.c
+++ b/src/viriatum_commons/ini/ini.c
@@ -84,6 +84,7 @@ ERROR_CODE process_ini_file(char *file_path, struct sort_map_t **configuration_p
     so that it may be updatd and then sets the handler in
     the ini engine instance to be used for parsing */
     ini_handler_s.configuration = configuration;
+    ini_handler_s.section[0] = '\0';
     ini_engine_s.context = ini_handler;
 
     /* sets the flag that controls if the trailing space
@@ -201,6 +202,7 @@ ERROR_CODE _ini_section_end_callback(struct ini_engine_t *ini_engine, const unsi
     /* retrieves the ini handler from the template engine context
     then uses it to store the (current) section */
     struct ini_handler_t *ini_handler = (struct ini_handler_t *) ini_engine->context;
+    if(size >= INI_KEY_MAX_SIZE) { size = INI_KEY_MAX_SIZE - 1; }
     memcpy(ini_handler->section, pointer, size);
     ini_handler->section[size] = '\0';
 
@@ -218,6 +220,7 @@ ERROR_CODE _ini_key_end_callback(struct ini_engine_t *ini_engine, const unsigned
     then uses it to store the (current) value */
     struct ini_handler_t *ini_handler = (struct ini_handler_t *) ini_engine->context;
     size = ini_handler->remove_spaces ? trailing_size((char *) pointer, size) : size;
+    if(size >= INI_KEY_MAX_SIZE) { size = INI_KEY_MAX_SIZE - 1; }
     memcpy(ini_handler->key, pointer, size);
     ini_handler->key[size] = '\0';
 
diff --git a/src/viriatum_commons/util/string_util.h b/src/viriatum_commons/util/string_util.h
index b9217d2..abbb928 100644
--- a/src/viriatum_commons/util/string_util.h
+++ b/src/viriatum_commons/util/string_util.h
@@ -199,12 +199,11 @@ static __inline size_t trailing_size(char *buffer, size_t size) {
     char byte;
     char *_pointer = buffer + size - 1;
 
-    while(TRUE) {
+    while(size > 0) {
         byte = *_pointer;
         if(byte != ' ') { break; }
         _pointer--;
         size--;
-        if(size == 0) { break; }
     }
 
     return size;
@@ -215,12 +214,11 @@ static __inline size_t leading_offset(char *buffer, size_t size) {
     size_t _size = 0;
     char *_pointer = buffer;
 
-    while(TRUE) {
+    while(_size < size) {
         byte = *_pointer;
         if(byte != ' ') { break; }
         _pointer++;
         _size++;
-        if(_size == size) { break; }
     }
 
     return _size;
-- 
2.43.0


From 5205b488d90822d9bc42fecb8985aec8b8f02423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:15 +0000
Subject: [PATCH 61/96] fix: repeated keys and missing ini files leaked memory

---
 src/viriatum_commons/ini/ini.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/viriatum_commons/ini/ini.c b/src/viriatum_commons/ini/ini.c
index 884218e..44e423d 100644
--- a/src/viriatum_commons/ini/ini.c
+++ b/src/viriatum_commons/ini/ini.c
@@ -96,6 +96,8 @@ ERROR_CODE process_ini_file(char *file_path, struct sort_map_t **configuration_p
     error prints it to the error stream output */
     return_value = read_file(file_path, &file_buffer, &file_size);
     if(IS_ERROR_CODE(return_value)) {
+        delete_sort_map(configuration);
+        *configuration_pointer = NULL;
         RAISE_ERROR_F(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem reading file %s",
@@ -233,6 +235,10 @@ ERROR_CODE _ini_value_end_callback(struct ini_engine_t *ini_engine, const unsign
     hold the reference to the current section configuration */
     struct sort_map_t *section_configuration;
 
+    /* allocates space for the value that is going to be replaced
+    in case the key is repeated in the section */
+    void *previous;
+
     /* retrieves the ini handler from the template engine context
     then uses it to store the (current) value */
     struct ini_handler_t *ini_handler = (struct ini_handler_t *) ini_engine->context;
@@ -255,7 +261,10 @@ ERROR_CODE _ini_value_end_callback(struct ini_engine_t *ini_engine, const unsign
     }
 
     /* sets the current key and value under the current section configuration
-    this is the main handler action */
+    this is the main handler action, the value previously set (if any) for
+    the same key is released as it's not referenced anymore */
+    get_value_string_sort_map(section_configuration, (unsigned char *) ini_handler->key, &previous);
+    if(previous != NULL) { FREE(previous); }
     set_value_string_sort_map(section_configuration, (unsigned char *) ini_handler->key, value);
 
     /* raises no error */
-- 
2.43.0


From c15c4c13ff32af5c0a8fd6654908db5220fc03d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:49 +0000
Subject: [PATCH 62/96] fix: long, invalid and repeated arguments were handled
 out of bounds or leaked

---
 src/viriatum_commons/util/arguments_util.c | 40 +++++++++++++++++-----
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/viriatum_commons/util/arguments_util.c b/src/viriatum_commons/util/arguments_util.c
index bdb40d4..6a30140 100644
--- a/src/viriatum_commons/util/arguments_util.c
+++ b/src/viriatum_commons/util/arguments_util.c
@@ -33,6 +33,10 @@ ERROR_CODE process_arguments(int argc, char *argv[], struct hash_map_t **argumen
     /* allocates space for the index counter */
     unsigned int index;
 
+    /* allocates space for the result of the parsing of
+    each of the arguments */
+    ERROR_CODE return_value;
+
     /* allocates the space for the current argument string
     in the iteration */
     char *current_argument;
@@ -40,6 +44,7 @@ ERROR_CODE process_arguments(int argc, char *argv[], struct hash_map_t **argumen
     /* allocates space for both the argument holder, to
     be created every iteration of the argument retrieval */
     struct argument_t *argument;
+    void *previous;
     struct hash_map_t *arguments;
 
     /* creates the hash map that will hold the various
@@ -54,9 +59,17 @@ ERROR_CODE process_arguments(int argc, char *argv[], struct hash_map_t **argumen
 
         /* retrievs the current argument, then processes it
         using the default (simple) parser and sets it in
-        the arguments map */
+        the arguments map, arguments that are not valid are
+        ignored and the last of repeated ones prevails */
         current_argument = argv[index];
-        _process_argument(current_argument, argument);
+        return_value = _process_argument(current_argument, argument);
+        if(IS_ERROR_CODE(return_value)) { CATCH_ERROR; FREE(argument); continue; }
+        get_value_string_hash_map(
+            arguments,
+            (unsigned char *) argument->key,
+            &previous
+        );
+        if(previous != NULL) { FREE(previous); }
         set_value_string_hash_map(
             arguments,
             (unsigned char *) argument->key,
@@ -126,7 +139,7 @@ ERROR_CODE print_arguments(struct hash_map_t *arguments) {
     struct iterator_t *arguments_iterator;
 
     /* creates an iterator for the arguments hash map */
-    create_iterator_hash_map(arguments, &arguments_iterator);
+    create_element_iterator_hash_map(arguments, &arguments_iterator);
 
     /* prints the initial arguments header */
     PRINTF("Arguments\n");
@@ -183,11 +196,17 @@ ERROR_CODE _process_argument(char *argument_value, struct argument_t *argument)
     /* starts the mark value wth the base index */
     size_t mark = 0;
 
+    /* allocates space for the size of the parts of the
+    argument, limited by the size of their buffers */
+    size_t size;
+
     /* retrieves the argument size for processing */
     size_t argument_size = strlen(argument_value);
 
     /* sets the argument to type key (just a name) */
     argument->type = SINGLE_ARGUMENT;
+    argument->key[0] = '\0';
+    argument->value[0] = '\0';
 
     /* iterates over all the characters present in
     the argument string to parse the argument */
@@ -240,8 +259,9 @@ ERROR_CODE _process_argument(char *argument_value, struct argument_t *argument)
 
                     /* copies the key value into the appropriate variable
                     in the argument */
-                    memcpy(argument->key, argument_value + mark, index - mark);
-                    argument->key[index - mark] = '\0';
+                    size = index - mark < sizeof(argument->key) ? index - mark : sizeof(argument->key) - 1;
+                    memcpy(argument->key, argument_value + mark, size);
+                    argument->key[size] = '\0';
 
                     /* marks the current index as the start point
                     for the value string */
@@ -264,8 +284,9 @@ ERROR_CODE _process_argument(char *argument_value, struct argument_t *argument)
         case ARGUMENT_KEY:
             /* copies the key value into the appropriate variable
             in the argument */
-            memcpy(argument->key, argument_value + mark, index - mark);
-            argument->key[index - mark] = '\0';
+            size = index - mark < sizeof(argument->key) ? index - mark : sizeof(argument->key) - 1;
+            memcpy(argument->key, argument_value + mark, size);
+            argument->key[size] = '\0';
 
             /* breaks the switch */
             break;
@@ -273,8 +294,9 @@ ERROR_CODE _process_argument(char *argument_value, struct argument_t *argument)
         case ARGUMENT_VALUE:
             /* copies the value value into the appropriate variable
             in the argument */
-            memcpy(argument->value, argument_value + mark, index - mark);
-            argument->value[index - mark] = '\0';
+            size = index - mark < sizeof(argument->value) ? index - mark : sizeof(argument->value) - 1;
+            memcpy(argument->value, argument_value + mark, size);
+            argument->value[size] = '\0';
 
             /* breaks the switch */
             break;
-- 
2.43.0


From 3bba4112d9b2fede17d06d4a09b023cadf04dead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:45 +0000
Subject: [PATCH 63/96] fix: the end of templates was lost after tags, dollar
 signs or some of the bytes

---
 src/viriatum_commons/template/engine.c | 27 +++++++++++++-------------
 src/viriatum_commons/template/engine.h |  2 +-
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/viriatum_commons/template/engine.c b/src/viriatum_commons/template/engine.c
index 8fc501c..c3e73ed 100644
--- a/src/viriatum_commons/template/engine.c
+++ b/src/viriatum_commons/template/engine.c
@@ -80,8 +80,8 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
 
     /* allocates space for the current (character) for reading
     and for the ahead character for look ahead */
-    char current = '\0';
-    char ahead = '\0';
+    int current = '\0';
+    int ahead = '\0';
 
     /* allocates the space for the look ahead valid flag */
     unsigned char ahead_set = 0;
@@ -162,9 +162,8 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
             current = _getc_template_engine(file, &pointer, &file_size);
         }
 
-        /* in case the end of file has been found, or
-        the file size is zero (breaks) */
-        if(current == EOF || file_size == 0) {
+        /* in case the end of file has been found (breaks) */
+        if(current == EOF) {
             /* breaks the cycle (end of parsing) */
             break;
         }
@@ -200,7 +199,7 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
                         TEMPLATE_CALLBACK(tag_close_begin);
                         ahead_set = 0;
                     }
-                } else {
+                } else if(current != '$') {
                     /* resets the state to the "normal" */
                     state = TEMPLATE_ENGINE_NORMAL;
                 }
@@ -390,9 +389,9 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
         }
     }
 
-    /* in case the current state is engine
-    normal (there must be text to be flushed) */
-    if(state == TEMPLATE_ENGINE_NORMAL) {
+    /* in case the current state is engine normal or just
+    a dollar sign (there must be text to be flushed) */
+    if(state == TEMPLATE_ENGINE_NORMAL || state == TEMPLATE_ENGINE_DOLLAR) {
         /* calls the text end callback */
         TEMPLATE_CALLBACK_DATA(text_end);
     }
@@ -407,15 +406,15 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
     RAISE_NO_ERROR;
 }
 
-char _getc_template_engine(FILE *file, unsigned char **pointer, size_t *size) {
+int _getc_template_engine(FILE *file, unsigned char **pointer, size_t *size) {
     /* allocates space for the current character
     to be retrieve in the function */
-    char current;
+    int current;
 
     /* in case the size is already zero (nothing remaining) */
-    if(size == 0) {
-        /* returns invalid */
-        return 0;
+    if(*size == 0) {
+        /* returns the end of the file */
+        return EOF;
     }
 
     /* retrieves the current character
diff --git a/src/viriatum_commons/template/engine.h b/src/viriatum_commons/template/engine.h
index 1afdc2d..4861b89 100644
--- a/src/viriatum_commons/template/engine.h
+++ b/src/viriatum_commons/template/engine.h
@@ -216,4 +216,4 @@ VIRIATUM_EXPORT_PREFIX ERROR_CODE process_template_engine(struct template_engine
  * (remaining) size in the file.
  * @return The character read from the file stream.
  */
-VIRIATUM_EXPORT_PREFIX char _getc_template_engine(FILE *file, unsigned char **pointer, size_t *size);
+VIRIATUM_EXPORT_PREFIX int _getc_template_engine(FILE *file, unsigned char **pointer, size_t *size);
-- 
2.43.0


From b6058030729c0b8deca59a0b4531be879833639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:45 +0000
Subject: [PATCH 64/96] fix: values right before the end of single tags of
 templates were lost

---
 src/viriatum_commons/template/engine.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/viriatum_commons/template/engine.c b/src/viriatum_commons/template/engine.c
index c3e73ed..16fe2e4 100644
--- a/src/viriatum_commons/template/engine.c
+++ b/src/viriatum_commons/template/engine.c
@@ -344,7 +344,9 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
 
                         TEMPLATE_MARK(text_end);
 
-                        /* calls the tag end and text begin callbacks */
+                        /* calls the parameter value, tag end and
+                        text begin callbacks */
+                        TEMPLATE_CALLBACK_DATA_N(parameter_value, 2);
                         TEMPLATE_CALLBACK_DATA(tag_end);
                         TEMPLATE_CALLBACK(text_begin);
 
-- 
2.43.0


From d55fa25898d545fed34473a2d508a4068bf8451d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:15 +0000
Subject: [PATCH 65/96] fix: tags of templates without names, parameters or
 values of the right type crashed or were not evaluated

---
 src/viriatum_commons/template/handler.c | 36 +++++++++++++++++--------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/viriatum_commons/template/handler.c b/src/viriatum_commons/template/handler.c
index 58e770e..2aa5a05 100644
--- a/src/viriatum_commons/template/handler.c
+++ b/src/viriatum_commons/template/handler.c
@@ -333,7 +333,7 @@ void get_template_handler(struct template_handler_t *template_handler, unsigned
     unsigned char *context;
 
     /* allocates space for the (type) value */
-    struct type_t *value;
+    struct type_t *value = NULL;
 
     /* retrieves the template global names as thee base value */
     struct hash_map_t *_value = template_handler->names;
@@ -354,8 +354,16 @@ void get_template_handler(struct template_handler_t *template_handler, unsigned
             break;
         }
 
+        /* in case the value of the previous token is not a map
+        there are no names in it (not found) */
+        if(value != NULL && value->type != MAP_TYPE) {
+            value = NULL;
+            break;
+        }
+
         /* retrieves the value from the current value with the
         name token reference key value */
+        _value = value == NULL ? _value : value->value.value_map;
         get_value_string_hash_map(_value, name_token, (void **) &value);
 
         /* in case the retrieve value is not valid
@@ -365,10 +373,6 @@ void get_template_handler(struct template_handler_t *template_handler, unsigned
             break;
         }
 
-        /* updates the (hash map) value reference with the "newly"
-        retrieved value */
-        _value = value->value.value_map;
-
         /* retrieves the next token */
         name_token = (unsigned char *) STRTOK(NULL, ".", context);
     }
@@ -452,6 +456,9 @@ void traverse_node_buffer(struct template_handler_t *template_handler, struct te
 
         case TEMPLATE_NODE_SINGLE:
         case TEMPLATE_NODE_OPEN:
+            /* tags without name or parameters have nothing to produce */
+            if(node->name == NULL || node->parameters_map == NULL) { break; }
+
             if(strcmp((char *) node->name, "out") == 0) {
                 /* traverses the out node in buffer mode */
                 _traverse_out_buffer(template_handler, node);
@@ -521,6 +528,7 @@ void _traverse_out_buffer(struct template_handler_t *template_handler, struct te
 
     /* retrieves value parameter from the parameters map */
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "value", (void **) &value_parameter);
+    if(value_parameter == NULL) { return; }
 
     /* switches over the value parameter type to
     update the string buffer accordingly */
@@ -589,13 +597,16 @@ void _traverse_for_each_buffer(struct template_handler_t *template_handler, stru
     /* retrieves both the item and from parameters from the parameters map */
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "item", (void **) &item_parameter);
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "from", (void **) &from_parameter);
+    if(item_parameter == NULL || from_parameter == NULL) { return; }
+    if(item_parameter->type != TEMPLATE_PARAMETER_REFERENCE) { return; }
+    if(from_parameter->type != TEMPLATE_PARAMETER_REFERENCE) { return; }
 
     /* tries to retrieve the reference value from the map of names in the
     template handler (dereferencing) */
     get_template_handler(template_handler, from_parameter->reference_value, &value);
 
-    /* in case the value was not found */
-    if(value == NULL) {
+    /* in case the value was not found or is not a list */
+    if(value == NULL || value->type != LIST_TYPE) {
         /* returns immediately */
         return;
     }
@@ -643,13 +654,16 @@ void _traverse_if_buffer(struct template_handler_t *template_handler, struct tem
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "item", (void **) &item_parameter);
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "value", (void **) &value_parameter);
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "operator", (void **) &operator_parameter);
+    if(item_parameter == NULL || value_parameter == NULL) { return; }
+    if(item_parameter->type != TEMPLATE_PARAMETER_REFERENCE) { return; }
+    if(value_parameter->type != TEMPLATE_PARAMETER_INTEGER) { return; }
 
     /* tries to retrieve the reference value from the map of names in the
     template handler (dereferencing) */
-    get_template_handler(template_handler, (unsigned char *) "entry.type", &value);
+    get_template_handler(template_handler, item_parameter->reference_value, &value);
 
-    /* in case the value was not found */
-    if(value == NULL) {
+    /* in case the value was not found or is not an integer */
+    if(value == NULL || value->type != INTEGER_TYPE) {
         /* returns immediately */
         return;
     }
@@ -916,7 +930,7 @@ ERROR_CODE _parameter_value_callback(struct template_engine_t *template_engine,
     }
     /* in case the first character of the raw value is a numeric
     value it must be a number */
-    else if(temporary_parameter->raw_value[0] > 0x2f && temporary_parameter->raw_value[0] < 0x58) {
+    else if(temporary_parameter->raw_value[0] >= '0' && temporary_parameter->raw_value[0] <= '9') {
         temporary_parameter->int_value = atoi((char *) temporary_parameter->raw_value);
         temporary_parameter->type = TEMPLATE_PARAMETER_INTEGER;
     }
-- 
2.43.0


From 62445a451864c49f1712f0cbdfb289fe30a229b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:15 +0000
Subject: [PATCH 66/96] fix: long parameters of templates overflowed their
 buffers

---
 src/viriatum_commons/template/handler.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/template/handler.c b/src/viriatum_commons/template/handler.c
index 2aa5a05..67b1bcf 100644
--- a/src/viriatum_commons/template/handler.c
+++ b/src/viriatum_commons/template/handler.c
@@ -898,7 +898,9 @@ ERROR_CODE _parameter_callback(struct template_engine_t *template_engine, const
     temporary_node->temporary_parameter = template_parameter;
     append_value_linked_list(temporary_node->parameters, template_parameter);
 
-    /* sets the name in the template parameter throught a memory copy */
+    /* sets the name in the template parameter throught a memory copy,
+    limited to the available space */
+    if(size >= sizeof(template_parameter->name)) { size = sizeof(template_parameter->name) - 1; }
     memcpy(template_parameter->name, pointer, size);
     template_parameter->name[size] = '\0';
 
@@ -917,7 +919,9 @@ ERROR_CODE _parameter_value_callback(struct template_engine_t *template_engine,
     struct template_node_t *temporary_node = template_handler->temporary_node;
     struct template_parameter_t *temporary_parameter = temporary_node->temporary_parameter;
 
-    /* sets the raw value in the template parameter throught a memory copy */
+    /* sets the raw value in the template parameter throught a memory copy,
+    limited to the available space */
+    if(size >= sizeof(temporary_parameter->raw_value)) { size = sizeof(temporary_parameter->raw_value) - 1; }
     memcpy(temporary_parameter->raw_value, pointer, size);
     temporary_parameter->raw_value[size] = '\0';
 
@@ -936,6 +940,7 @@ ERROR_CODE _parameter_value_callback(struct template_engine_t *template_engine,
     }
     /* othwerwise it must be a (variable) reference value */
     else {
+        if(size >= sizeof(temporary_parameter->reference_value)) { size = sizeof(temporary_parameter->reference_value) - 1; }
         memcpy(temporary_parameter->reference_value, pointer, size);
         temporary_parameter->reference_value[size] = '\0';
         temporary_parameter->type = TEMPLATE_PARAMETER_REFERENCE;
-- 
2.43.0


From f877f5447163df714ea429da4ba5f5b39a5b5a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:15 +0000
Subject: [PATCH 67/96] fix: templates with tags not balanced or not finished
 crashed or leaked

---
 src/viriatum_commons/template/handler.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/viriatum_commons/template/handler.c b/src/viriatum_commons/template/handler.c
index 67b1bcf..a8f90c0 100644
--- a/src/viriatum_commons/template/handler.c
+++ b/src/viriatum_commons/template/handler.c
@@ -253,6 +253,12 @@ void process_template_handler(struct template_handler_t *template_handler, unsig
     /* processes the file as a template engine and then uses the
     created node structure to traverse for string buffer output */
     process_template_engine(template_engine, template_settings, file_path);
+
+    /* releases the node of the tag that was not finished (if any) and
+    traverses the tree starting in its root, tags may be left open */
+    if(template_handler->temporary_node) { delete_template_node(template_handler->temporary_node); }
+    template_handler->temporary_node = NULL;
+    template_handler->current_node = root_node;
     traverse_node_buffer(template_handler, template_handler->current_node);
 
     /* "joins" the template handler string buffer into the string
@@ -700,6 +706,9 @@ ERROR_CODE _open_context_template_handler(struct template_handler_t *template_ha
 }
 
 ERROR_CODE _close_context_template_handler(struct template_handler_t *template_handler) {
+    /* in case there is no open context there is nothing to be closed */
+    if(template_handler->contexts == NULL || template_handler->contexts->size == 0) { RAISE_NO_ERROR; }
+
     /* pops the last context into the template handler current node */
     pop_top_value_linked_list(template_handler->contexts, (void **) &template_handler->current_node, 1);
 
@@ -721,10 +730,10 @@ ERROR_CODE _text_end_callback(struct template_engine_t *template_engine, const u
     struct template_handler_t *template_handler = (struct template_handler_t *) template_engine->context;
     struct template_node_t *current_node = template_handler->current_node;
 
-    /* creates a new template node and sets the template
-    node as the temporary node in the template handler */
+    /* creates a new template node, there is no tag being
+    processed and so no temporary node in the template handler */
     create_template_node(&template_node, TEMPLATE_NODE_TEXT);
-    template_handler->temporary_node = template_node;
+    template_handler->temporary_node = NULL;
 
     /* allocates the space for the temporary node name and
     sets it with a memory copy */
@@ -821,6 +830,9 @@ ERROR_CODE _tag_end_callback(struct template_engine_t *template_engine, const un
             break;
     }
 
+    /* the tag is now complete, there is no temporary node anymore */
+    template_handler->temporary_node = NULL;
+
     /* in case the temporary node is of type close */
     if(temporary_node->type == TEMPLATE_NODE_CLOSE) {
         /* deletes the temporary node (no need to process it) */
-- 
2.43.0


From de92bc1f482627cf2a2c95035e429b78316edc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:00 +0000
Subject: [PATCH 68/96] fix: writing to files that are not possible to be
 opened crashed and incomplete writes were not reported

---
 src/viriatum_commons/io/file.c | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/viriatum_commons/io/file.c b/src/viriatum_commons/io/file.c
index 1e602d4..ee424d4 100644
--- a/src/viriatum_commons/io/file.c
+++ b/src/viriatum_commons/io/file.c
@@ -122,8 +122,11 @@ ERROR_CODE read_file(char *file_path, unsigned char **buffer_pointer, size_t *fi
 }
 
 ERROR_CODE write_file(char *file_path, unsigned char *buffer, size_t buffer_size) {
-    /* allocates space for the file */
+    /* allocates space for the file, the number of bytes
+    written into it and the result of closing it */
     FILE *file;
+    size_t number_bytes;
+    int result;
 
     /* ensures that the file path is correctly converted
     into the proper system path, through encoding conversion */
@@ -133,8 +136,28 @@ ERROR_CODE write_file(char *file_path, unsigned char *buffer, size_t buffer_size
     from the provided buffer into it and closes the file to avoid
     any memory leaks */
     FOPEN(&file, file_path, "wb");
-    fwrite(buffer, sizeof(char), buffer_size, file);
-    fclose(file);
+
+    /* in case the file could not be opened (created) */
+    if(file == NULL) {
+        /* raises an error */
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem opening file for writing"
+        );
+    }
+
+    number_bytes = fwrite(buffer, sizeof(char), buffer_size, file);
+    result = fclose(file);
+
+    /* in case the complete set of contents has not been
+    written, either now or while flushing the file */
+    if(number_bytes != buffer_size || result != 0) {
+        /* raises an error */
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem writing to file"
+        );
+    }
 
     /* raise no error */
     RAISE_NO_ERROR;
-- 
2.43.0


From 76e5e01858d06edd30cc62f18be6593f78c14d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:35 +0000
Subject: [PATCH 69/96] fix: the extension of an empty path was read out of
 bounds

---
 src/viriatum_commons/util/string_util.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/viriatum_commons/util/string_util.h b/src/viriatum_commons/util/string_util.h
index abbb928..ad6cf9b 100644
--- a/src/viriatum_commons/util/string_util.h
+++ b/src/viriatum_commons/util/string_util.h
@@ -141,7 +141,8 @@ static __inline void normalize_path(char *string_value) {
 }
 
 static __inline char *extension_path(char *string_value) {
-    size_t index = strlen(string_value) - 1;
+    size_t index = strlen(string_value);
+    if(index > 0) { index--; }
     while(string_value[index] != '.' && index != 0) { index--; }
     return &string_value[index];
 }
-- 
2.43.0


From 81380fd429589dc25ff8da797bc675876c379867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:35 +0000
Subject: [PATCH 70/96] fix: time deltas were written past the end of small
 buffers

---
 src/viriatum_commons/util/string_util.h | 42 +++++++++----------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/src/viriatum_commons/util/string_util.h b/src/viriatum_commons/util/string_util.h
index ad6cf9b..7547b5f 100644
--- a/src/viriatum_commons/util/string_util.h
+++ b/src/viriatum_commons/util/string_util.h
@@ -291,6 +291,14 @@ static __inline size_t split(char *string_value, char *buffer, size_t size_e, ch
     return count;
 }
 
+static __inline size_t format_value(char *buffer, size_t size, char *format, unsigned long long value) {
+    /* formats the value into the buffer and returns the number
+    of bytes that were really written into it (no terminator) */
+    int count = SPRINTF(buffer, size, format, (int) value);
+    if(count < 0) { return 0; }
+    return (size_t) count < size ? (size_t) count : size - 1;
+}
+
 static __inline size_t format_delta(char *buffer, size_t size, unsigned long long delta, size_t counts) {
     char *format;
     unsigned long long value;
@@ -303,18 +311,13 @@ static __inline size_t format_delta(char *buffer, size_t size, unsigned long lon
         if(value == 1) { format = "%d day "; }
         else { format = "%d days "; }
 
-        count += SPRINTF(
-            &buffer[count],
-            size,
-            format,
-            value
-        );
+        count += format_value(&buffer[count], size - count, format, value);
         counter++;
         valid = TRUE;
     }
 
     if(counter == counts) {
-        buffer[count - 1] = '\0';
+        buffer[count > 0 ? count - 1 : 0] = '\0';
         return count;
     }
 
@@ -323,18 +326,13 @@ static __inline size_t format_delta(char *buffer, size_t size, unsigned long lon
         if(value == 1) { format = "%d hour "; }
         else { format = "%d hours "; }
 
-        count += SPRINTF(
-            &buffer[count],
-            size,
-            format,
-            value
-        );
+        count += format_value(&buffer[count], size - count, format, value);
         counter++;
         valid = TRUE;
     }
 
     if(counter == counts) {
-        buffer[count - 1] = '\0';
+        buffer[count > 0 ? count - 1 : 0] = '\0';
         return count;
     }
 
@@ -343,18 +341,13 @@ static __inline size_t format_delta(char *buffer, size_t size, unsigned long lon
         if(value == 1) { format = "%d minute "; }
         else { format = "%d minutes "; }
 
-        count += SPRINTF(
-            &buffer[count],
-            size,
-            format,
-            value
-        );
+        count += format_value(&buffer[count], size - count, format, value);
         counter++;
         valid = TRUE;
     }
 
     if(counter == counts) {
-        buffer[count - 1] = '\0';
+        buffer[count > 0 ? count - 1 : 0] = '\0';
         return count;
     }
 
@@ -364,12 +357,7 @@ static __inline size_t format_delta(char *buffer, size_t size, unsigned long lon
         if(value == 1) { format = "%d second "; }
         else { format = "%d seconds "; }
 
-        count += SPRINTF(
-            &buffer[count],
-            size,
-            format,
-            value
-        );
+        count += format_value(&buffer[count], size - count, format, value);
         counter++;
         valid = TRUE;
     }
-- 
2.43.0


From ca153c118ecbe6c53d83ee216e515ba674179a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:35 +0000
Subject: [PATCH 71/96] fix: index files over the maximum number or size
 overflowed the options of the service

---
 src/viriatum/system/service.c           | 2 +-
 src/viriatum_commons/util/string_util.h | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index e333434..9b31f16 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -2226,7 +2226,7 @@ ERROR_CODE _file_options_service(struct service_t *service, struct hash_map_t *a
     /* tries to retrieve the index (file) argument from the arguments map, then
     sets the split value arround the space character in the index value */
     get_value_string_sort_map(general, (unsigned char *) "index", &value);
-    if(value != NULL) { service_options->index_count = split(value, (char *) service_options->index, 128, ' '); }
+    if(value != NULL) { service_options->index_count = split(value, (char *) service_options->index, 32, 128, ' '); }
 
     /* raises no error */
     RAISE_NO_ERROR;
diff --git a/src/viriatum_commons/util/string_util.h b/src/viriatum_commons/util/string_util.h
index 7547b5f..50931eb 100644
--- a/src/viriatum_commons/util/string_util.h
+++ b/src/viriatum_commons/util/string_util.h
@@ -225,7 +225,7 @@ static __inline size_t leading_offset(char *buffer, size_t size) {
     return _size;
 }
 
-static __inline size_t split(char *string_value, char *buffer, size_t size_e, char token) {
+static __inline size_t split(char *string_value, char *buffer, size_t elements, size_t size_e, char token) {
     /* allocates space for the temporary token to be used to
     store the current token in iteration */
     char _token;
@@ -244,6 +244,10 @@ static __inline size_t split(char *string_value, char *buffer, size_t size_e, ch
         for conditional expression execution */
         _token = string_value[index];
 
+        /* in case there's no more space for elements in the
+        buffer the remaining ones are ignored */
+        if(count == elements) { break; }
+
         /* in case the current token matches the one to be used
         as split, must split the string */
         if(_token == token) {
@@ -251,6 +255,7 @@ static __inline size_t split(char *string_value, char *buffer, size_t size_e, ch
             of index and then copies the string from one memory
             buffer to the other over the calculated size */
             size = index - _index;
+            if(size > size_e - 1) { size = size_e - 1; }
             memcpy(buffer, &string_value[_index], size);
             buffer[size] = '\0';
 
@@ -270,6 +275,7 @@ static __inline size_t split(char *string_value, char *buffer, size_t size_e, ch
             of index and then copies the string from one memory
             buffer to the other over the calculated size */
             size = index - _index;
+            if(size > size_e - 1) { size = size_e - 1; }
             memcpy(buffer, &string_value[_index], size);
             buffer[size] = '\0';
 
-- 
2.43.0


From 2e4d51988430871c57f5da0a1304f63cde03b6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:41 +0000
Subject: [PATCH 72/96] fix: joining a name to an empty path read before its
 start

---
 src/viriatum_commons/io/file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum_commons/io/file.c b/src/viriatum_commons/io/file.c
index ee424d4..19afa41 100644
--- a/src/viriatum_commons/io/file.c
+++ b/src/viriatum_commons/io/file.c
@@ -420,7 +420,7 @@ ERROR_CODE join_path_file(char *base_path, char *name, char *joined_path) {
 
     /* in case the base path ends with the separator
     (no need to add the extra separator)*/
-    if(base_path[base_path_length - 1] == '/') {
+    if(base_path_length > 0 && base_path[base_path_length - 1] == '/') {
         /* adds the name part to the joined path */
         memcpy(joined_path + base_path_length, name, name_length + 1);
     }
-- 
2.43.0


From 70b3697a2f8597182d3481b868614d48a81a4821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:41 +0000
Subject: [PATCH 73/96] fix: the names of the entries of directories with long
 paths overflowed their buffer

---
 src/viriatum_commons/io/file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum_commons/io/file.c b/src/viriatum_commons/io/file.c
index 19afa41..e87b709 100644
--- a/src/viriatum_commons/io/file.c
+++ b/src/viriatum_commons/io/file.c
@@ -817,7 +817,7 @@ ERROR_CODE list_directory_file(char *file_path, struct linked_list_t *entries) {
     the entry full name, the length of the entry name and
     the entry stat structure (for file attributes)*/
     struct file_t *entry;
-    char entry_full_name[4096];
+    char entry_full_name[4096 + 256];
     size_t entry_name_length;
     struct stat entry_stat;
 
-- 
2.43.0


From 9b6bf4e2edf676b2a0362b4ee4a9c98b477592ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:08 +0000
Subject: [PATCH 74/96] fix: items released from a full chunk of a memory pool
 made it give the last one twice

---
 src/viriatum_commons/memory/memory_pool.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/viriatum_commons/memory/memory_pool.h b/src/viriatum_commons/memory/memory_pool.h
index d8ae517..131155e 100644
--- a/src/viriatum_commons/memory/memory_pool.h
+++ b/src/viriatum_commons/memory/memory_pool.h
@@ -701,6 +701,11 @@ static __inline void pfree(struct memory_pool_t *pool, void *buffer) {
     index_c = ((size_t) buffer - (size_t) chunk->buffer) / chunk->item_size;
     chunk->bitmap[index_c] = 0;
 
+    /* in case the chunk was full its free index still refers
+    the last allocated item, the released one is now the only
+    free item in it */
+    if(chunk->is_full) { chunk->free = index_c; }
+
     /* ensures that the is full flag of the chunk is set
     to false as there's at least one item available for
     allocation, then decrement the current item alloc
-- 
2.43.0


From f22b3e7ab6a516cc8609c30d22cf9de7c7b1dda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:40 +0000
Subject: [PATCH 75/96] fix: a missing configuration file crashed the server
 instead of leaving the defaults

---
 src/viriatum/system/service.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 9b31f16..869332d 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -2152,7 +2152,12 @@ ERROR_CODE _file_options_service(struct service_t *service, struct hash_map_t *a
     SPRINTF(config_path, VIRIATUM_MAX_PATH_SIZE, "%s/viriatum.ini", VIRIATUM_CONFIG_PATH);
     V_DEBUG_F("Loading configuration file (%s)\n", config_path);
     return_value = process_ini_file(config_path, &configuration);
-    if(IS_ERROR_CODE(return_value)) { CATCH_ERROR; }
+    if(IS_ERROR_CODE(return_value)) {
+        /* no configuration is available, an empty one is used
+        so that the default values are kept */
+        CATCH_ERROR;
+        create_sort_map(&configuration, 0);
+    }
 
     /* sets the configuraation structure under the service structure
     so that it may be latter used for operations */
-- 
2.43.0


From 907e8ac014d879e432c3b630aef410deb48ff035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:40 +0000
Subject: [PATCH 76/96] fix: a default handler that does not exist crashed the
 server at the first request

---
 src/viriatum/system/service.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 869332d..8a145aa 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -578,6 +578,13 @@ ERROR_CODE start_service(struct service_t *service) {
         service_options->handler_name,
         (void **) &service->http_handler
     );
+    if(service->http_handler == NULL) {
+        V_ERROR_F("Handler not found: %s\n", service_options->handler_name);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Handler not found"
+        );
+    }
 
     /* sets the socket address attributes in the socket address
     structure so that the connection is properly defined */
-- 
2.43.0


From 593b2a6201af87c2095592db52362e3d585647a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:40 +0000
Subject: [PATCH 77/96] fix: a host that is not an address made the server
 listen on the broadcast address

---
 src/viriatum/system/service.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 8a145aa..5311ed9 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -590,6 +590,13 @@ ERROR_CODE start_service(struct service_t *service) {
     structure so that the connection is properly defined */
     socket_address.sin_family = SOCKET_INTERNET_TYPE;
     socket_address.sin_addr.s_addr = inet_addr((char *) service_options->address);
+    if(socket_address.sin_addr.s_addr == INADDR_NONE) {
+        V_ERROR_F("Invalid host address: %s\n", service_options->address);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Invalid host address"
+        );
+    }
     socket_address.sin_port = htons(service_options->port);
 
     /* creates the service socket for the given types */
-- 
2.43.0


From 2a16da03796f7399b8701823a3544d2fcb6ef16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:40 +0000
Subject: [PATCH 78/96] fix: a long ip6 host overflowed the buffer of the
 address

---
 src/viriatum/system/service.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 5311ed9..8265d85 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -684,7 +684,7 @@ ERROR_CODE start_service(struct service_t *service) {
         /* copies the ip6 address to a temporary buffer and then
         uses the buffer to trim the string remogin the first and
         last chracters from it (ip6 normal representation) */
-        STRCPY((char *) address6, 64, (char *) service_options->address6);
+        SPRINTF((char *) address6, sizeof(address6), "%s", (char *) service_options->address6);
         _address6 = trim(address6);
 
         /* populates the socket ip6 address with the values provided
-- 
2.43.0


From daf0cc9b3a726837336d48cb3a0d4d5b1a9abb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:40 +0000
Subject: [PATCH 79/96] fix: configurations with more than 1024 locations
 overflowed their table

---
 src/viriatum/system/service.c | 9 +++++++++
 src/viriatum/system/service.h | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 8265d85..a2d5f45 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -54,6 +54,7 @@ void create_service(struct service_t **service_pointer, unsigned char *name, uns
     service->add_http_handler = add_http_handler_service;
     service->remove_http_handler = remove_http_handler_service;
     service->get_http_handler = get_http_handler_service;
+    service->locations.values = NULL;
     service->locations.count = 0;
 
 #ifdef VIRIATUM_SSL
@@ -90,6 +91,9 @@ void delete_service(struct service_t *service) {
         delete_configuration(service->configuration, 1);
     }
 
+    /* releases the locations, in case they have been calculated */
+    if(service->locations.values != NULL) { FREE(service->locations.values); }
+
     /* deletes the various internal structures associated
     with the service avoiding any memory leak */
     delete_hash_map(service->http_handlers_map);
@@ -315,6 +319,11 @@ ERROR_CODE calculate_locations_service(struct service_t *service) {
     int is_equal;
 
     struct sort_map_t *configuration = service->configuration;
+    /* allocates space for as many locations as there are sections
+    in the configuration (upper bound of the number of locations) */
+    service->locations.values = (struct location_t *)
+        MALLOC((configuration->hash_map->size + 1) * sizeof(struct location_t));
+
     create_element_iterator_sort_map(configuration, &iterator);
 
     while(TRUE) {
diff --git a/src/viriatum/system/service.h b/src/viriatum/system/service.h
index cb8d0b2..4bd0c6e 100644
--- a/src/viriatum/system/service.h
+++ b/src/viriatum/system/service.h
@@ -175,7 +175,7 @@ typedef struct location_t {
 } location;
 
 typedef struct locations_t {
-    struct location_t values[1024];
+    struct location_t *values;
     size_t count;
 } locations;
 
-- 
2.43.0


From 34c58d1270006f74b0611c9b6be34d2af7ce5910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:40 +0000
Subject: [PATCH 80/96] fix: the failure of a secure connection broke the ones
 of other clients

---
 src/viriatum/stream/stream_io.c | 2 ++
 src/viriatum/system/service.h   | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index eca71d9..b0b3a51 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -178,6 +178,7 @@ ERROR_CODE accept_handler_stream_io(struct connection_t *connection) {
                 /* runs the accept operation in the ssl handle, this is possible to
                 break as this operation involves the handshake operation non blocking
                 sockets may block on this */
+                ERR_clear_error();
                 socket_result = SSL_accept(ssl_handle);
 
                 /* in case the socket result is zero the connection has been closed
@@ -648,6 +649,7 @@ ERROR_CODE handshake_handler_stream_io(struct connection_t *connection) {
     /* runs the accept operation in the ssl handle, this is possible to
     break as this operation involves the handshake operation non blocking
     sockets may block on this */
+    ERR_clear_error();
     result = SSL_accept(connection->ssl_handle);
 
     /* in case the result of the accept operation in the ssl handle is not
diff --git a/src/viriatum/system/service.h b/src/viriatum/system/service.h
index 4bd0c6e..40b0e2f 100644
--- a/src/viriatum/system/service.h
+++ b/src/viriatum/system/service.h
@@ -42,10 +42,10 @@ struct http_handler_t;
 #ifdef VIRIATUM_SSL
 #define CONNECTION_SEND(connection, buffer, length, flags) connection->ssl_handle == NULL ? \
     SOCKET_SEND(connection->socket_handle, buffer, length, flags) :\
-    SSL_write(connection->ssl_handle, buffer, length)
+    (ERR_clear_error(), SSL_write(connection->ssl_handle, buffer, length))
 #define CONNECTION_RECEIVE(connection, buffer, length, flags) connection->ssl_handle == NULL ? \
     SOCKET_RECEIVE(connection->socket_handle, buffer, length, flags) :\
-    SSL_read(connection->ssl_handle, buffer, length)
+    (ERR_clear_error(), SSL_read(connection->ssl_handle, buffer, length))
 #define CONNECTION_GET_ERROR_CODE(connection, error_code) connection->ssl_handle == NULL ? \
     SOCKET_GET_ERROR_CODE(error_code) :\
     SSL_get_error(connection->ssl_handle, error_code)
-- 
2.43.0


From c179b7be9072abb07e325473bf2ab4615d7bd474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:04 +0000
Subject: [PATCH 81/96] fix: more than 1024 connections overflowed the lists of
 the polling

---
 src/viriatum/polling/polling_epoll.c  | 57 ++++++++++++++++++++++++++-
 src/viriatum/polling/polling_epoll.h  | 26 +++++++++---
 src/viriatum/polling/polling_select.c | 14 ++++++-
 src/viriatum/polling/polling_select.h | 51 +++++++++++++++++++++---
 4 files changed, 133 insertions(+), 15 deletions(-)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index eba64fd..6ff85e1 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -48,6 +48,29 @@ void create_polling_epoll(struct polling_epoll_t **polling_epoll_pointer, struct
     polling_epoll->read_outstanding_size = 0;
     polling_epoll->write_outstanding_size = 0;
 
+    /* allocates the initial space for the buffers that grow with
+    the number of connections */
+    polling_epoll->remove_connections_capacity = VIRIATUM_MAX_EVENTS;
+    polling_epoll->read_outstanding_capacity = VIRIATUM_MAX_EVENTS;
+    polling_epoll->write_outstanding_capacity = VIRIATUM_MAX_EVENTS;
+    polling_epoll->_read_outstanding_capacity = VIRIATUM_MAX_EVENTS;
+    polling_epoll->_write_outstanding_capacity = VIRIATUM_MAX_EVENTS;
+    polling_epoll->remove_connections = (struct connection_t **) MALLOC(
+        VIRIATUM_MAX_EVENTS * sizeof(struct connection_t *)
+    );
+    polling_epoll->read_outstanding = (struct connection_t **) MALLOC(
+        VIRIATUM_MAX_EVENTS * sizeof(struct connection_t *)
+    );
+    polling_epoll->write_outstanding = (struct connection_t **) MALLOC(
+        VIRIATUM_MAX_EVENTS * sizeof(struct connection_t *)
+    );
+    polling_epoll->_read_outstanding = (struct connection_t **) MALLOC(
+        VIRIATUM_MAX_EVENTS * sizeof(struct connection_t *)
+    );
+    polling_epoll->_write_outstanding = (struct connection_t **) MALLOC(
+        VIRIATUM_MAX_EVENTS * sizeof(struct connection_t *)
+    );
+
     /* resets the polling in the polling epoll */
     polling_epoll->polling = polling;
 
@@ -64,7 +87,13 @@ void delete_polling_epoll(struct polling_epoll_t *polling_epoll) {
     in order to avoid any memory leak problem */
     if(polling_epoll->epoll_fd) { close(polling_epoll->epoll_fd); }
 
-    /* releases the polling epoll */
+    /* releases the polling epoll and the buffers
+    that grow with the number of connections */
+    FREE((void *) polling_epoll->read_outstanding);
+    FREE((void *) polling_epoll->write_outstanding);
+    FREE((void *) polling_epoll->_read_outstanding);
+    FREE((void *) polling_epoll->_write_outstanding);
+    FREE((void *) polling_epoll->remove_connections);
     FREE(polling_epoll);
 }
 
@@ -194,7 +223,8 @@ ERROR_CODE unregister_connection_polling_epoll(
     of the logic loop) */
     if(remove_c == TRUE) {
         remove_connection(
-            polling_epoll->remove_connections,
+            &polling_epoll->remove_connections,
+            &polling_epoll->remove_connections_capacity,
             &polling_epoll->remove_connections_size,
             connection
         );
@@ -328,6 +358,11 @@ ERROR_CODE register_write_polling_epoll(struct polling_t *polling, struct connec
 
     /* sets the connection for the current outstanding position and
     then increments the size of the outstanding connection pending */
+    reserve_connections(
+        &polling_epoll->write_outstanding,
+        &polling_epoll->write_outstanding_capacity,
+        polling_epoll->write_outstanding_size + 1
+    );
     polling_epoll->write_outstanding[polling_epoll->write_outstanding_size] = connection;
     polling_epoll->write_outstanding_size++;
 
@@ -352,6 +387,11 @@ ERROR_CODE add_outstanding_polling_epoll(struct polling_t *polling, struct conne
 
     /* sets the connection for the current outstanding position and
     then increments the size of the outstanding connection pending */
+    reserve_connections(
+        &polling_epoll->read_outstanding,
+        &polling_epoll->read_outstanding_capacity,
+        polling_epoll->read_outstanding_size + 1
+    );
     polling_epoll->read_outstanding[polling_epoll->read_outstanding_size] = connection;
     polling_epoll->read_outstanding_size++;
 
@@ -369,6 +409,19 @@ ERROR_CODE poll_polling_epoll(struct polling_t *polling) {
     struct polling_epoll_t *polling_epoll =\
         (struct polling_epoll_t *) polling->lower;
 
+    /* makes sure that the auxiliary buffers are able to hold the
+    complete set of outstanding connections */
+    reserve_connections(
+        &polling_epoll->_read_outstanding,
+        &polling_epoll->_read_outstanding_capacity,
+        polling_epoll->read_outstanding_size
+    );
+    reserve_connections(
+        &polling_epoll->_write_outstanding,
+        &polling_epoll->_write_outstanding_capacity,
+        polling_epoll->write_outstanding_size
+    );
+
     /* triggers the processing of the outstanding connection
     operations (pending operations) that meant to be done before
     the main poll operation blocks the control flow */
diff --git a/src/viriatum/polling/polling_epoll.h b/src/viriatum/polling/polling_epoll.h
index fc51160..036e785 100644
--- a/src/viriatum/polling/polling_epoll.h
+++ b/src/viriatum/polling/polling_epoll.h
@@ -77,7 +77,7 @@ typedef struct polling_epoll_t {
      * to be house-kept (removed) at the end
      * of the polling cycle.
      */
-    struct connection_t *remove_connections[VIRIATUM_MAX_EVENTS];
+    struct connection_t **remove_connections;
 
     /**
      * The buffer that contains the various
@@ -85,7 +85,7 @@ typedef struct polling_epoll_t {
      * be read from the socket at the begining
      * of the next poll operation.
      */
-    struct connection_t *read_outstanding[VIRIATUM_MAX_EVENTS];
+    struct connection_t **read_outstanding;
 
     /**
      * The buffer that contains the various
@@ -93,19 +93,19 @@ typedef struct polling_epoll_t {
      * be writen to the socket at the begining
      * of the next poll operation.
      */
-    struct connection_t *write_outstanding[VIRIATUM_MAX_EVENTS];
+    struct connection_t **write_outstanding;
 
     /**
      * Auxiliary buffer to be used in the performing
      * of the outstaind read operations.
      */
-    struct connection_t *_read_outstanding[VIRIATUM_MAX_EVENTS];
+    struct connection_t **_read_outstanding;
 
     /**
      * Auxiliary buffer to be used in the performing
      * of the outstaind write operations.
      */
-    struct connection_t *_write_outstanding[VIRIATUM_MAX_EVENTS];
+    struct connection_t **_write_outstanding;
 
     /**
      * The size of the read connections
@@ -131,6 +131,12 @@ typedef struct polling_epoll_t {
      */
     size_t remove_connections_size;
 
+    /**
+     * The number of connections that the remove
+     * connections buffer is able to hold.
+     */
+    size_t remove_connections_capacity;
+
    /**
      * The size as items of the sequence of
      * connections that are pending to be read
@@ -144,6 +150,16 @@ typedef struct polling_epoll_t {
      * at he beginning of the poll operation.
      */
     size_t write_outstanding_size;
+
+    /**
+     * The number of connections that each of the
+     * buffers of outstanding connections is able
+     * to hold.
+     */
+    size_t read_outstanding_capacity;
+    size_t write_outstanding_capacity;
+    size_t _read_outstanding_capacity;
+    size_t _write_outstanding_capacity;
 } polling_epoll;
 
 void create_polling_epoll(struct polling_epoll_t **polling_epoll_pointer, struct polling_t *polling);
diff --git a/src/viriatum/polling/polling_select.c b/src/viriatum/polling/polling_select.c
index 87d854a..71de8a5 100644
--- a/src/viriatum/polling/polling_select.c
+++ b/src/viriatum/polling/polling_select.c
@@ -47,6 +47,13 @@ void create_polling_select(struct polling_select_t **polling_select_pointer, str
     polling_select->read_outstanding_size = 0;
     polling_select->write_outstanding_size = 0;
 
+    /* allocates the initial space for the buffers that grow with
+    the number of connections */
+    polling_select->remove_connections_capacity = VIRIATUM_MAX_EVENTS;
+    polling_select->remove_connections = (struct connection_t **) MALLOC(
+        VIRIATUM_MAX_EVENTS * sizeof(struct connection_t *)
+    );
+
     /* zerifies the variuous socket sets that are going
     to be used during the select type polling */
     SOCKET_SET_ZERO(&polling_select->sockets_read_set);
@@ -65,7 +72,9 @@ void create_polling_select(struct polling_select_t **polling_select_pointer, str
 }
 
 void delete_polling_select(struct polling_select_t *polling_select) {
-    /* releases the polling select */
+    /* releases the polling select and the buffers
+    that grow with the number of connections */
+    FREE((void *) polling_select->remove_connections);
     FREE(polling_select);
 }
 
@@ -179,7 +188,8 @@ ERROR_CODE unregister_connection_polling_select(
     of the logic loop) */
     if(remove_c == TRUE) {
         remove_connection(
-            polling_select->remove_connections,
+            &polling_select->remove_connections,
+            &polling_select->remove_connections_capacity,
             &polling_select->remove_connections_size,
             connection
         );
diff --git a/src/viriatum/polling/polling_select.h b/src/viriatum/polling/polling_select.h
index b24404f..a334a71 100644
--- a/src/viriatum/polling/polling_select.h
+++ b/src/viriatum/polling/polling_select.h
@@ -98,7 +98,7 @@ typedef struct polling_select_t {
      * to be house-kept (removed) at the end
      * of the polling cycle.
      */
-    struct connection_t *remove_connections[VIRIATUM_MAX_EVENTS];
+    struct connection_t **remove_connections;
 
     /**
      * The buffer that contains the various
@@ -152,6 +152,12 @@ typedef struct polling_select_t {
      */
     size_t remove_connections_size;
 
+    /**
+     * The number of connections that the remove
+     * connections buffer is able to hold.
+     */
+    size_t remove_connections_capacity;
+
     /**
      * The size as items of the sequence of
      * connections that are pending to be read
@@ -235,6 +241,28 @@ ERROR_CODE _unregister_sockets_set_polling_select(
     SOCKET_SET *sockets_set
 );
 
+/**
+ * Makes sure that the provided list of connections is able to hold
+ * the requested number of connections, making it grow if required.
+ *
+ * @param connections_pointer Pointer to the list of connections.
+ * @param capacity_pointer Pointer to the number of connections that
+ * the list is able to hold.
+ * @param size The number of connections to be hold by the list.
+ */
+static __inline void reserve_connections(
+    struct connection_t ***connections_pointer,
+    size_t *capacity_pointer,
+    size_t size
+) {
+    if(size <= *capacity_pointer) { return; }
+    while(*capacity_pointer < size) { *capacity_pointer *= 2; }
+    *connections_pointer = (struct connection_t **) REALLOC(
+        (void *) *connections_pointer,
+        *capacity_pointer * sizeof(struct connection_t *)
+    );
+}
+
 /**
  * Removes every reference to the provided connection from the list
  * of connections with outstanding operations. Must be called for
@@ -270,13 +298,17 @@ static __inline void remove_outstanding(
  * This method checks for duplicates and in case they exist, no
  * connection is added.
  *
- * @param remove_connections The list of connection for removal.
+ * @param remove_connections_pointer Pointer to the list of connection
+ * for removal, that grows in case it's required.
+ * @param remove_connections_capacity_pointer Pointer to the number of
+ * connections that the list is able to hold.
  * @param remove_connections_size_pointer A pointer to the sisze
  * of the remove connections array.
  * @param connection The connection to be removed (deleted).
  */
 static __inline void remove_connection(
-    struct connection_t **remove_connections,
+    struct connection_t ***remove_connections_pointer,
+    size_t *remove_connections_capacity_pointer,
     size_t *remove_connections_size_pointer,
     struct connection_t *connection
 ) {
@@ -284,10 +316,11 @@ static __inline void remove_connection(
     the space for the temporary connection pointer */
     size_t index;
     struct connection_t *current_connection;
+    struct connection_t **remove_connections = *remove_connections_pointer;
 
     /* retrieves the remove connections size value from the
     providade pointer value (indirect value) */
-    unsigned int remove_connections_size = *remove_connections_size_pointer;
+    size_t remove_connections_size = *remove_connections_size_pointer;
 
     /* iterates over all the connections to be removed in order
     to find out if there's a duplicated value */
@@ -301,7 +334,13 @@ static __inline void remove_connection(
     }
 
     /* adds the connection to the remove connections and
-    then increments the remove connections size */
-    remove_connections[remove_connections_size] = connection;
+    then increments the remove connections size, making sure
+    that there's enough space for it */
+    reserve_connections(
+        remove_connections_pointer,
+        remove_connections_capacity_pointer,
+        remove_connections_size + 1
+    );
+    (*remove_connections_pointer)[remove_connections_size] = connection;
     (*remove_connections_size_pointer)++;
 }
-- 
2.43.0


From a639b76a4a0749089a3b5e0f3c1ecb376f564c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:26 +0000
Subject: [PATCH 82/96] fix: sockets over the limit of select overflowed its
 sets

---
 src/viriatum/polling/polling_select.h | 11 +++++++++++
 src/viriatum/stream/stream_io.c       | 10 ++++++++++
 src/viriatum/system/client.c          | 12 ++++++++++++
 3 files changed, 33 insertions(+)

diff --git a/src/viriatum/polling/polling_select.h b/src/viriatum/polling/polling_select.h
index a334a71..22b783c 100644
--- a/src/viriatum/polling/polling_select.h
+++ b/src/viriatum/polling/polling_select.h
@@ -29,6 +29,17 @@
 
 #include "../system/system.h"
 
+/**
+ * Checks if the given socket may be part of a sockets set, as the
+ * ones with an handle over the size of the set are not possible
+ * to be polled (an internal overflow would occur).
+ */
+#ifdef VIRIATUM_PLATFORM_UNIX
+#define SOCKET_SELECTABLE(socket_handle) ((socket_handle) < FD_SETSIZE)
+#else
+#define SOCKET_SELECTABLE(socket_handle) TRUE
+#endif
+
 typedef struct polling_select_t {
     /**
      * The polling reference, for top
diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index b0b3a51..30e8218 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -103,6 +103,16 @@ ERROR_CODE accept_handler_stream_io(struct connection_t *connection) {
         }
         /* otherwise the socket was accepted corretly */
         else {
+#ifndef VIRIATUM_EPOLL
+            /* in case the socket is not possible to be polled (too many
+            of them are open) it must be closed immediately */
+            if(!SOCKET_SELECTABLE(socket_handle)) {
+                SOCKET_CLOSE(socket_handle);
+                if(!VIRIATUM_NON_BLOCKING) { break; }
+                continue;
+            }
+#endif
+
             /* in case viriatum is set to non blocking, changes the current
             socket behavior to non blocking mode then sets the socket to the
             non push mode in case it's required by configuration this implies
diff --git a/src/viriatum/system/client.c b/src/viriatum/system/client.c
index 4d398ca..6d20478 100644
--- a/src/viriatum/system/client.c
+++ b/src/viriatum/system/client.c
@@ -58,6 +58,18 @@ ERROR_CODE _create_client_connection(struct connection_t **connection_pointer, s
         );
     }
 
+#ifndef VIRIATUM_EPOLL
+    /* in case the socket is not possible to be polled (too many of
+    them are open) it's not possible to use it */
+    if(!SOCKET_SELECTABLE(socket_handle)) {
+        SOCKET_CLOSE(socket_handle);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Too many open sockets"
+        );
+    }
+#endif
+
     /* tries to retrieve the server host value from the provided
     hostname string value in case the "resolution" fails raises
     an error indicating the problem */
-- 
2.43.0


From 771c81bfb9572773f2ce0835d1864ea90e41e05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:02 +0000
Subject: [PATCH 83/96] fix: connections pending while no descriptors were left
 were not accepted afterwards

---
 src/viriatum/stream/stream_io.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index 30e8218..a7a3f92 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -97,6 +97,14 @@ ERROR_CODE accept_handler_stream_io(struct connection_t *connection) {
 
         /* in case there was an error accepting the socket */
         if(SOCKET_TEST_ERROR(socket_handle)) {
+            /* in case the problem is not the absence of connections (eg: the
+            limit of open files has been reached) there may be connections
+            pending for which no more events are going to be raised, and so
+            the operation must be tried again later */
+            if(SOCKET_GET_ERROR_CODE(socket_handle) != SOCKET_WOULDBLOCK) {
+                connection->add_outstanding(connection);
+            }
+
             /* breaks the loop, nothing to be handled not possible
             to accept the connection for now */
             break;
-- 
2.43.0


From a687cee8e88fe9695a651661a0d1fa985665b73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:05 +0000
Subject: [PATCH 84/96] fix: a file replaced before the sending of it mixed its
 contents with the length of the old one

---
 src/viriatum/handlers/handler_file.c | 55 +++++++++++++---------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index 83acf33..7c009da 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -710,6 +710,19 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
             etag as an heexadecimal string value */
             crc32_value = crc_32((unsigned char *) time_string, 19);
             SPRINTF(etag, 11, "\"%08x\"", (unsigned int) crc32_value);
+
+            /* opens the file that is going to be sent and uses it to retrieve
+            the size, so that the contents are the ones announced even if
+            the file is replaced before the sending of them */
+            error_code = open_file(
+                (char *) handler_file_context->file_path_d,
+                "rb",
+                &handler_file_context->file
+            );
+            if(!IS_ERROR_CODE(error_code)) {
+                fseek(handler_file_context->file, 0, SEEK_END);
+                file_size = ftell(handler_file_context->file);
+            }
         }
     }
 
@@ -863,6 +876,9 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
             &handler_file_context->final_byte,
             file_size
         ))) {
+        /* positions the file in the first of the bytes to be sent */
+        fseek(handler_file_context->file, (long) handler_file_context->initial_byte, SEEK_SET);
+
         /* writes the HTTP static headers to the response indicating
         that only a part of the file is going to be retrieved, then
         writes also the content range header indicating which bytes
@@ -908,6 +924,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
         reading but only for partial (ranged) contents */
         handler_file_context->initial_byte = 0;
         handler_file_context->final_byte = file_size - 1;
+        fseek(handler_file_context->file, 0, SEEK_SET);
 
         /* writes the HTTP static headers to the response indicating
         that the file is going to be served normally */
@@ -1136,6 +1153,13 @@ ERROR_CODE _cleanup_handler_file(struct connection_t *connection, struct data_t
     struct io_connection_t *io_connection = (struct io_connection_t *) connection->lower;
     struct http_connection_t *http_connection = (struct http_connection_t *) io_connection->lower;
 
+    /* in case the file is still open (not sent) closes it, as it's
+    no longer going to be required */
+    if(handler_file_context->file != NULL) {
+        fclose(handler_file_context->file);
+        handler_file_context->file = NULL;
+    }
+
     /* in case there is an HTTP handler in the current connection must
     unset it (remove temporary information) */
     if(http_connection->http_handler) {
@@ -1181,38 +1205,11 @@ ERROR_CODE _send_chunk_handler_file(struct connection_t *connection, struct data
     /* casts the parameters as handler file context and uses it
     to retrieve the proper file path for the sending */
     struct handler_file_context_t *handler_file_context = (struct handler_file_context_t *) parameters;
-    unsigned char *file_path = handler_file_context->file_path_d;
 
-    /* retrieves the file from the handler file context */
+    /* retrieves the file from the handler file context, it has
+    been opened (and positioned) before the sending of the headers */
     FILE *file = handler_file_context->file;
 
-    /* in case the file is not defined (should be opened) */
-    if(file == NULL) {
-        /* opens the file in the most secure manner making sure
-        that the proper encoding is set for the path */
-        open_file((char *) file_path, "rb", &file);
-
-        /* in case the file is no longer available it's not possible
-        to send its contents and so the connection must be closed in
-        order to notify the client about the problem */
-        if(file == NULL) {
-            handler_file_context->flags &= ~FLAG_KEEP_ALIVE;
-            return _cleanup_handler_file(connection, data, parameters);
-        }
-
-        /* seeks to the end of the file and then to the
-        beginig in order to correctly retrieve the size
-        of the current file for reading */
-        fseek(file, 0, SEEK_END);
-        handler_file_context->file_size = ftell(file);
-        fseek(file, handler_file_context->initial_byte, SEEK_SET);
-
-        /* sets the file in the handler file context, this is
-        the pointer that will be used for the sending of the
-        various chunks of the file */
-        handler_file_context->file = file;
-    }
-
     /* retrieves the current offset position in the file reading
     and uses it to calculate the remaining bytes to be read, then
     calculates the "target" buffer size from the minimum value
-- 
2.43.0


From 6d60201136e04e56e71af1bc7345e754ba36edac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:13 +0000
Subject: [PATCH 85/96] fix: folders that could not be read were answered as
 empty ones or as files

---
 src/viriatum/handlers/handler_file.c |  5 +++--
 src/viriatum_commons/io/file.c       | 22 +++++++++-------------
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index 7c009da..51cf90f 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -617,8 +617,9 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
             create_linked_list(&directory_entries);
 
             /* lists the directory file into the directory
-            entries linked list and then converts them into maps */
-            list_directory_file((char *) handler_file_context->file_path_d, directory_entries);
+            entries linked list and then converts them into maps, in
+            case it's not possible to list it an error must be sent */
+            error_code = list_directory_file((char *) handler_file_context->file_path_d, directory_entries);
             entries_to_map_file(directory_entries, &directory_entries_map);
 
             /* retrieves the current size of the url and copies into
diff --git a/src/viriatum_commons/io/file.c b/src/viriatum_commons/io/file.c
index e87b709..daf44a8 100644
--- a/src/viriatum_commons/io/file.c
+++ b/src/viriatum_commons/io/file.c
@@ -783,24 +783,20 @@ ERROR_CODE get_write_time_file(char *file_path, struct date_time_t *date_time) {
 }
 
 ERROR_CODE is_directory_file(char *file_path, unsigned int *is_directory) {
-    /* allocates space for the directory reference */
-    DIR *directory;
-
-    /* tries to open the directory for the file path */
-    directory = opendir(file_path);
+    /* allocates space for the file attributes */
+    struct stat file_stat;
 
-    /* in case the directory reference is not valid (null) */
-    if(directory == NULL) {
+    /* retrieves the attributes of the file, this does not depend
+    on it being possible to open the file (eg: permissions or the
+    limit of open files) */
+    if(stat(file_path, &file_stat) != 0) {
         /* unsets the is directory flag */
         *is_directory = 0;
     }
-    /* otherwise the directory reference is valid */
+    /* otherwise the type of the file is known */
     else {
-        /* sets the is directory flag */
-        *is_directory = 1;
-
-        /* closes the directory reference */
-        closedir(directory);
+        /* sets the is directory flag according to the type */
+        *is_directory = S_ISDIR(file_stat.st_mode) ? 1 : 0;
     }
 
     /* raise no error */
-- 
2.43.0


From 05829d42b7c64f6c757ab8281d6262d419b9c307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:45 +0000
Subject: [PATCH 86/96] fix: stop reading from the backend once it's paused

---
 src/viriatum/stream/stream_io.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index a7a3f92..6edc3a4 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -300,6 +300,11 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
     /* iterates continuously to read the data that is currently
     available in the connection for reading */
     while(TRUE) {
+        /* in case the reading has been disabled for the connection
+        (by the processing of the data already read) nothing more may
+        be read, there's going to be a new event once it's enabled */
+        if(connection->read_registered == FALSE) { break; }
+
         /* in case the current total number of bytes read during
         this read operation is greater than the expected maximum
         the read operation should be delayed so that the write
-- 
2.43.0


From 6c46267f50e977d4c0755f5b0be5062f2f0c6b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:03 +0000
Subject: [PATCH 87/96] fix: a signal received at the end used the released
 service

---
 src/viriatum/viriatum.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/viriatum/viriatum.c b/src/viriatum/viriatum.c
index 2bb5fac..5f007b8 100644
--- a/src/viriatum/viriatum.c
+++ b/src/viriatum/viriatum.c
@@ -97,11 +97,12 @@ ERROR_CODE destroy_service() {
     of the service structures destruction */
     V_DEBUG("Destroying the service structures\n");
 
-    /* deletes the service, disallowing any further
-    access to the service instance, and then sets its
-    reference back to the original (unset sate) */
-    delete_service(service);
+    /* sets the reference of the service back to the original
+    (unset sate), disallowing any further access to it (eg: by
+    the handlers of signals), and then deletes the service */
+    struct service_t *_service = service;
     service = NULL;
+    delete_service(_service);
 
     /* prints a debug message about the final stage
     of the service structures destruction */
@@ -173,8 +174,9 @@ ERROR_CODE ran_service() {
     /* allocates the return value */
     ERROR_CODE return_value;
 
-    /* in case the service status is open */
-    if(service->status == STATUS_CLOSED) {
+    /* in case the service does not exist anymore (or it's
+    already closed) there's nothing to be stopped */
+    if(service == NULL || service->status == STATUS_CLOSED) {
         /* prints a debug message */
         V_DEBUG("No service to be stopped\n");
     } else {
-- 
2.43.0


From c9c90c3cd811c7a5059dc3180329bd5c630b2248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:03 +0000
Subject: [PATCH 88/96] fix: the daemon wrote to a pid file that could not be
 opened

---
 src/viriatum/viriatum.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/viriatum/viriatum.c b/src/viriatum/viriatum.c
index 5f007b8..ca7abf5 100644
--- a/src/viriatum/viriatum.c
+++ b/src/viriatum/viriatum.c
@@ -323,10 +323,12 @@ void daemonize() {
     this will allow external programs to make sure viriatum
     is correctly running */
     FOPEN(&pid_file, VIRIATUM_PID_PATH, "wb");
-    SPRINTF(pid_string, 1024, "%d\n", pid);
-    pid_string_length = strlen(pid_string);
-    fwrite(pid_string, sizeof(char), pid_string_length, pid_file);
-    fclose(pid_file);
+    if(pid_file != NULL) {
+        SPRINTF(pid_string, 1024, "%d\n", pid);
+        pid_string_length = strlen(pid_string);
+        fwrite(pid_string, sizeof(char), pid_string_length, pid_file);
+        fclose(pid_file);
+    }
 
     /* opens the log file and redirects the standard output stream
     into it so that every log message is sent there */
-- 
2.43.0


From 4c538a6c6a660a300a93c3af3adb7a4e8ea72485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:03 +0000
Subject: [PATCH 89/96] fix: the number of workers was not initialized

---
 src/viriatum/system/service.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index a2d5f45..ef95b2a 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -122,6 +122,7 @@ void create_service_options(struct service_options_t **service_options_pointer)
     service_options->ssl_csr = NULL;
     service_options->ssl_key = NULL;
     service_options->handler_name = NULL;
+    service_options->workers = 0;
     service_options->local = 0;
     service_options->default_index = 0;
     service_options->use_template = 0;
-- 
2.43.0


From 48e6e74a07b56e5c232fed7f84baf4875fbf2aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:03 +0000
Subject: [PATCH 90/96] fix: the end of a worker removed the pid file of the
 running daemon

---
 src/viriatum/viriatum.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/viriatum/viriatum.c b/src/viriatum/viriatum.c
index ca7abf5..ab9c975 100644
--- a/src/viriatum/viriatum.c
+++ b/src/viriatum/viriatum.c
@@ -278,6 +278,12 @@ void daemonclean() { }
 #endif
 
 #ifdef VIRIATUM_PLATFORM_UNIX
+/**
+ * The identifier of the process running as daemon, the
+ * one that is stored in the pid file.
+ */
+static PID_TYPE daemon_pid = 0;
+
 void daemonize() {
     /* allocates space for the various dameon
     related variables */
@@ -318,6 +324,7 @@ void daemonize() {
     /* retrieves the pid of the current process this
     must be called because the current pid value is invalid */
     pid = GET_PID();
+    daemon_pid = pid;
 
     /* opens the pid file and writes the pid stirng into it
     this will allow external programs to make sure viriatum
@@ -347,6 +354,10 @@ void daemonize() {
     close(STDIN_FILENO);
 }
 void daemonclean() {
+    /* in case the current process is not the daemon itself (eg: it's
+    one of its workers) the daemon may still be running */
+    if(GET_PID() != daemon_pid) { return; }
+
     /* removes the viriatum pid path, so that the daemon
     watching tool are notified that the process is no
     longer running in the current environment */
-- 
2.43.0


From fdf0d5b8ea3e32fed2a0b99e1695d6a923cdae61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:03 +0000
Subject: [PATCH 91/96] fix: more workers than the maximum were written beyond
 their buffer

---
 src/viriatum/system/service.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index ef95b2a..353ab6b 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -383,6 +383,13 @@ ERROR_CODE create_workers(struct service_t *service) {
     unsigned char worker_count = service_options->workers;
     if(worker_count == 0) { RAISE_NO_ERROR; }
 
+    /* limits the number of workers to the size of the buffer that
+    holds their identifiers */
+    if(worker_count > VIRIATUM_MAX_WORKERS) {
+        worker_count = VIRIATUM_MAX_WORKERS;
+        service_options->workers = worker_count;
+    }
+
     /* iterates continuously for the forking of the
     current process (worker creation) */
     while(TRUE) {
-- 
2.43.0


From 7a74ea985da501780ad1c49a0cdb123a9d5607eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:10 +0000
Subject: [PATCH 92/96] fix: the state of a service that was not run yet is set
 from its creation

---
 src/viriatum/system/service.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 353ab6b..f6d9a7c 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -47,6 +47,8 @@ void create_service(struct service_t **service_pointer, unsigned char *name, uns
     service->service_socket6_handle = 0;
     service->http_handler = NULL;
     service->register_signals = NULL;
+    service->start_time = (unsigned long long) time(NULL);
+    service->modules[0] = '\0';
     service->get_uptime = _get_uptime_service;
     service->get_mime_type = _get_mime_type_service;
     service->create_http_handler = create_http_handler_service;
-- 
2.43.0


From 8fd2b71d866c8c1dc0272c13b0e88175bb8e4444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:39 +0000
Subject: [PATCH 93/96] fix: the sockets of the service are closed only once,
 their descriptors may be of others by then

---
 src/viriatum/system/service.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index f6d9a7c..6de57a1 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -1184,6 +1184,11 @@ ERROR_CODE start_service(struct service_t *service) {
     close_connections_service(service);
     polling->close(polling);
 
+    /* the service sockets have been closed together with their
+    connections, the handles may already be in use by others */
+    service->service_socket_handle = 0;
+    service->service_socket6_handle = 0;
+
     /* unloads the modules for the service */
     unload_modules_service(service);
 
-- 
2.43.0


From 7843e9b8331aa049c91f6dc47ec8d03db1751c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:25 +0000
Subject: [PATCH 94/96] fix: a service that fails to start releases its
 sockets, modules and handlers

---
 src/viriatum/system/service.c | 59 ++++++++++++++++++++++++-----------
 src/viriatum/system/service.h | 10 ++++++
 src/viriatum/viriatum.c       |  9 ++++--
 3 files changed, 58 insertions(+), 20 deletions(-)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 6de57a1..387f65c 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -659,7 +659,6 @@ ERROR_CODE start_service(struct service_t *service) {
     if(SOCKET_TEST_ERROR(socket_result)) {
         SOCKET_ERROR_CODE option_error_code = SOCKET_GET_ERROR_CODE(socket_result);
         V_ERROR_F("Problem setting socket option: %d\n", option_error_code);
-        SOCKET_CLOSE(service->service_socket_handle);
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem setting socket option"
@@ -773,7 +772,6 @@ ERROR_CODE start_service(struct service_t *service) {
 #else
             SOCKET_ERROR_CODE option_error_code = SOCKET_GET_ERROR_CODE(socket_result);
             V_ERROR_F("Problem setting ip6 socket option: %d\n", option_error_code);
-            SOCKET_CLOSE(service->service_socket6_handle);
             RAISE_ERROR_M(
                 RUNTIME_EXCEPTION_ERROR_CODE,
                 (unsigned char *) "Problem setting ip6 socket option"
@@ -796,7 +794,6 @@ ERROR_CODE start_service(struct service_t *service) {
         if(SOCKET_TEST_ERROR(socket_result)) {
             SOCKET_ERROR_CODE option_error_code = SOCKET_GET_ERROR_CODE(socket_result);
             V_ERROR_F("Problem setting ip6 socket option: %d\n", option_error_code);
-            SOCKET_CLOSE(service->service_socket6_handle);
             RAISE_ERROR_M(
                 RUNTIME_EXCEPTION_ERROR_CODE,
                 (unsigned char *) "Problem setting ip6 socket option"
@@ -841,7 +838,6 @@ ERROR_CODE start_service(struct service_t *service) {
         /* tests if there was an error loading the certificate file and
         if it did closes the socket and returns in error (major problem) */
         if(SOCKET_EX_TEST_ERROR(socket_result)) {
-            SOCKET_CLOSE(service->service_socket_handle);
             V_ERROR("Problem loading the ssl certificate file (*.crt)\n");
             V_WARNING_F("Using certificate file path (%s)\n", _config_path);
             RAISE_ERROR_M(
@@ -871,7 +867,6 @@ ERROR_CODE start_service(struct service_t *service) {
         /* tests if there was an error loading private key file and
         if it did closes the socket and returns in error (major problem) */
         if(SOCKET_EX_TEST_ERROR(socket_result)) {
-            SOCKET_CLOSE(service->service_socket_handle);
             V_ERROR("Problem loading the ssl key file (*.key)\n");
             V_WARNING_F("Using key file path (%s)\n", _config_path);
             RAISE_ERROR_M(
@@ -894,7 +889,6 @@ ERROR_CODE start_service(struct service_t *service) {
 
         /* closes the service socket and raises an error indicating
         the problem binding the socket */
-        SOCKET_CLOSE(service->service_socket_handle);
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem binding socket"
@@ -913,7 +907,6 @@ ERROR_CODE start_service(struct service_t *service) {
 
         /* closes the service socket and raises an error indicating
         the problem listening the socket */
-        SOCKET_CLOSE(service->service_socket_handle);
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem listening socket"
@@ -951,7 +944,6 @@ ERROR_CODE start_service(struct service_t *service) {
 
             /* closes the service socket and raises an error indicating
             the problem listening the socket */
-            SOCKET_CLOSE(service->service_socket_handle);
             RAISE_ERROR_M(
                 RUNTIME_EXCEPTION_ERROR_CODE,
                 (unsigned char *) "Problem binding socket"
@@ -970,7 +962,6 @@ ERROR_CODE start_service(struct service_t *service) {
 
             /* closes the service socket and raises an error indicating
             the problem listening the socket */
-            SOCKET_CLOSE(service->service_socket_handle);
             RAISE_ERROR_M(
                 RUNTIME_EXCEPTION_ERROR_CODE,
                 (unsigned char *) "Problem listening socket"
@@ -1189,15 +1180,9 @@ ERROR_CODE start_service(struct service_t *service) {
     service->service_socket_handle = 0;
     service->service_socket6_handle = 0;
 
-    /* unloads the modules for the service */
-    unload_modules_service(service);
-
-    /* unregisters the various "local" handlers
-    from the service, for structure destruction */
-    unregister_handler_proxy(service);
-    unregister_handler_file(service);
-    unregister_handler_default(service);
-    unregister_handler_dispatch(service);
+    /* releases the structures that were created for the
+    running of the service (modules and handlers) */
+    release_service(service);
 
 #ifdef VIRIATUM_SSL
     /* in case the ssl encryption flag is set the ssl sub system
@@ -1219,6 +1204,44 @@ ERROR_CODE start_service(struct service_t *service) {
     RAISE_NO_ERROR;
 }
 
+ERROR_CODE release_service(struct service_t *service) {
+    /* closes the service sockets that are still open (the service
+    did not start), their handles are no longer valid after this */
+    if(service->service_socket_handle > 0) {
+        SOCKET_CLOSE(service->service_socket_handle);
+    }
+    if(service->service_socket6_handle > 0) {
+        SOCKET_CLOSE(service->service_socket6_handle);
+    }
+    service->service_socket_handle = 0;
+    service->service_socket6_handle = 0;
+
+#ifdef VIRIATUM_SSL
+    /* releases the ssl context in case it's still defined */
+    if(service->ssl_context != NULL) {
+        SSL_CTX_free(service->ssl_context);
+        service->ssl_context = NULL;
+    }
+#endif
+
+    /* unloads the modules for the service */
+    unload_modules_service(service);
+
+    /* unregisters the various "local" handlers
+    from the service, for structure destruction */
+    unregister_handler_proxy(service);
+    unregister_handler_file(service);
+    unregister_handler_default(service);
+    unregister_handler_dispatch(service);
+
+    /* the service is no longer running, from now on
+    it's only possible to have it deleted */
+    service->status = STATUS_CLOSED;
+
+    /* raises no error */
+    RAISE_NO_ERROR;
+}
+
 ERROR_CODE stop_service(struct service_t *service) {
     /* sets the service status as closed, this should
     trigger the unloading of the service in the next
diff --git a/src/viriatum/system/service.h b/src/viriatum/system/service.h
index 40b0e2f..beb4340 100644
--- a/src/viriatum/system/service.h
+++ b/src/viriatum/system/service.h
@@ -1231,6 +1231,16 @@ ERROR_CODE start_service(struct service_t *service);
  */
 ERROR_CODE stop_service(struct service_t *service);
 
+/**
+ * Releases the structures that were created for the running
+ * of the service (sockets, modules and handlers), either because
+ * it came to its end or because it was not possible to start it.
+ *
+ * @param service The service to have its structures released.
+ * @return The resulting error code.
+ */
+ERROR_CODE release_service(struct service_t *service);
+
 /**
  * Closes all the current active connection in the
  * given service.
diff --git a/src/viriatum/viriatum.c b/src/viriatum/viriatum.c
index ab9c975..89b1233 100644
--- a/src/viriatum/viriatum.c
+++ b/src/viriatum/viriatum.c
@@ -131,8 +131,10 @@ ERROR_CODE run_service() {
     /* tests the error code value for error and in case there's
     one runs the appropriate measures */
     if(IS_ERROR_CODE(return_value)) {
-        /* runs the socket finish so that the proper cleanup
+        /* releases what was created for a service that did not start,
+        runs the socket finish so that the proper cleanup
         operations are performed and then re-raises the error*/
+        release_service(service);
         SOCKET_FINISH();
         RAISE_AGAIN(return_value);
     }
@@ -158,7 +160,10 @@ ERROR_CODE run_service_s(char *program_name, struct hash_map_t *arguments) {
     /* run the service, blocking the call until the service is
     finished, the retrives the return value from it */
     return_value = run_service();
-    if(IS_ERROR_CODE(return_value)) { RAISE_AGAIN(return_value); }
+    if(IS_ERROR_CODE(return_value)) {
+        destroy_service();
+        RAISE_AGAIN(return_value);
+    }
 
     /* destroys the service eliminating any structures that have
     been created in the service life-time */
-- 
2.43.0


From 02fe8215ad42064605e7a6f225ab0e34dff10791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:55 +0000
Subject: [PATCH 95/96] fix: a path that is too long for the file handler
 refers no file, not even its base path

---
 src/viriatum/handlers/handler_file.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index 51cf90f..539322b 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -348,10 +348,19 @@ ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const un
     char *pointer = (char *) memchr((char *) data, '?', data_size);
     size_t path_size = pointer == NULL ? data_size : pointer - (char *) data;
 
+    /* in case the path is too long to be handled the request must
+    not refer any existing file, not even the base path */
+    if(path_size >= VIRIATUM_MAX_URL_SIZE) {
+        handler_file_context->url[0] = '\0';
+        handler_file_context->url_d[0] = '\0';
+        handler_file_context->file_path[0] = '\0';
+        handler_file_context->file_path_d[0] = '\0';
+        RAISE_NO_ERROR;
+    }
+
     /* copies the memory from the data to the url and then
     puts the end of string in the url, note that only the path
     part of the string is used for the url */
-    if(path_size >= VIRIATUM_MAX_URL_SIZE) { path_size = 0; }
     memcpy(handler_file_context->url, data, path_size);
     handler_file_context->url[path_size] = '\0';
 
-- 
2.43.0


From 8b72b3d74154efd4d31b38c0b1e6a93a024ff171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:51 +0000
Subject: [PATCH 96/96] fix: urls without a path are parsed, with their host
 and port

---
 src/viriatum_commons/formats/url.c | 38 +++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/viriatum_commons/formats/url.c b/src/viriatum_commons/formats/url.c
index a3275be..6bc6f1e 100644
--- a/src/viriatum_commons/formats/url.c
+++ b/src/viriatum_commons/formats/url.c
@@ -110,11 +110,13 @@ ERROR_CODE parse_url(char *url, size_t url_size, struct url_t *url_s) {
             case AUTH_STATE:
                 switch(current) {
                     case '/':
+                    case '?':
+                    case '#':
                         length = pointer - mark;
                         url_s->host_c.buffer = mark;
                         url_s->host_c.length = length;
-                        state = PATH_STATE;
-                        mark = pointer;
+                        state = current == '/' ? PATH_STATE : current == '?' ? QUERY_STATE : FRAGMENT_STATE;
+                        mark = current == '/' ? pointer : pointer + 1;
                         break;
 
                     case '@':
@@ -131,11 +133,13 @@ ERROR_CODE parse_url(char *url, size_t url_size, struct url_t *url_s) {
             case HOST_STATE:
                 switch(current) {
                     case '/':
+                    case '?':
+                    case '#':
                         length = pointer - mark;
                         url_s->host.buffer = mark;
                         url_s->host.length = length;
-                        state = PATH_STATE;
-                        mark = pointer;
+                        state = current == '/' ? PATH_STATE : current == '?' ? QUERY_STATE : FRAGMENT_STATE;
+                        mark = current == '/' ? pointer : pointer + 1;
                         break;
 
                     case ':':
@@ -152,11 +156,13 @@ ERROR_CODE parse_url(char *url, size_t url_size, struct url_t *url_s) {
             case PORT_STATE:
                 switch(current) {
                     case '/':
+                    case '?':
+                    case '#':
                         length = pointer - mark;
                         url_s->port_s.buffer = mark;
                         url_s->port_s.length = length;
-                        state = PATH_STATE;
-                        mark = pointer;
+                        state = current == '/' ? PATH_STATE : current == '?' ? QUERY_STATE : FRAGMENT_STATE;
+                        mark = current == '/' ? pointer : pointer + 1;
                         break;
                 }
 
@@ -205,6 +211,26 @@ ERROR_CODE parse_url(char *url, size_t url_size, struct url_t *url_s) {
     /* runs the final swith operation to clone the still
     opened parse step (the final step) */
     switch(state) {
+        case AUTH_STATE:
+            length = pointer - mark;
+            if(length == 0) { goto error; }
+            url_s->host_c.buffer = mark;
+            url_s->host_c.length = length;
+            break;
+
+        case HOST_STATE:
+            length = pointer - mark;
+            if(length == 0) { goto error; }
+            url_s->host.buffer = mark;
+            url_s->host.length = length;
+            break;
+
+        case PORT_STATE:
+            length = pointer - mark;
+            url_s->port_s.buffer = mark;
+            url_s->port_s.length = length;
+            break;
+
         case PATH_STATE:
             length = pointer - mark;
             url_s->path.buffer = mark;
-- 
2.43.0

