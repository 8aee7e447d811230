From 5c245308fbb539d69c5f2c357ef9310cb5e93bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:05 +0000
Subject: [PATCH 01/64] fix: handle split, slow and back-to-back messages and
 read errors in the server's message buffer

A message that arrived in pieces, or slower than the one second idle timeout,
or together with the next one was lost or corrupted, a size field below the
header size or above the maximum was trusted, and read errors advanced the
buffer index by -1.
---
 src/server/buffer.c  | 38 +++++++++++++++++++++-----------------
 src/server/message.c |  5 ++---
 2 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/server/buffer.c b/src/server/buffer.c
index f4d3d24..b82b7f0 100644
--- a/src/server/buffer.c
+++ b/src/server/buffer.c
@@ -137,7 +137,7 @@ int
 buff_read(int fd)
 {
     dax_buffnode *node;
-    size_t result;
+    ssize_t result;
     uint32_t size;
 
     node = find_buff_slot(fd);
@@ -152,8 +152,9 @@ buff_read(int fd)
     //--result = xread(fd, &node->buffer[node->index], size);
 
     if(result < 0) {
+        if(errno == EINTR || errno == EAGAIN) return 0;
         dax_log(DAX_LOG_ERROR, "Unable to read data from socket %d", fd);
-        return ERR_MSG_RECV;
+        return ERR_NO_SOCKET;
     } if(result == 0) { /* EOF means the other guy is closed */
         dax_log(DAX_LOG_COMM, "Received EOF on socket %d", fd);
         return ERR_NO_SOCKET;
@@ -161,17 +162,22 @@ buff_read(int fd)
 
     node->index += result;
 
-    /* Check the size and let the caller know how it turns out. */
     /* First four bytes of a message should always be the size of
-       the message and it should be in network byte order */
-    size = ntohl(*(uint32_t *)node->buffer);
-    if(node->index < (size - 1)) {
-        return ERR_MSG_BAD;
-    } else if(node->index >= (size - 1)) {
-        return msg_dispatcher(fd, node->buffer);
-    }else if(size > DAX_MSGMAX) {
-        return ERR_2BIG;
+       the message and it should be in network byte order.  We handle all
+       of the complete messages that are in the buffer and keep the rest */
+    while(node->index >= MSG_HDR_SIZE) {
+        size = ntohl(*(uint32_t *)node->buffer);
+        if(size < MSG_HDR_SIZE || size > DAX_MSGMAX) {
+            /* We have no way to find the next message so give up on this one */
+            dax_log(DAX_LOG_ERROR, "Bad message size %u received on socket %d", size, fd);
+            return ERR_NO_SOCKET;
+        }
+        if(node->index < size) break; /* The rest hasn't arrived yet */
+        msg_dispatcher(fd, node->buffer);
+        node->index -= size;
+        memmove(node->buffer, &node->buffer[size], node->index);
     }
+    if(node->index == 0) buff_free(fd);
     return 0;
 }
 
@@ -195,9 +201,9 @@ buff_free(int fd)
     }
 }
 
-/* This function essentially marks all of the buffers as free.  If there are
- * more than min_buffers it'll free() the last one.  Kindof a poor boy
- * garbage collection. */
+/* If there are more than min_buffers this function will free() the last one
+ * if it is not being used.  Buffers that hold part of a message are left
+ * alone.  Kindof a poor boy garbage collection. */
 void
 buff_freeall(void)
 {
@@ -209,12 +215,10 @@ buff_freeall(void)
     last = NULL;
 
     while(node != NULL) {
-        node->fd = 0;
-        node->index = 0;
         n++;
         /* If we are the last node, there are more than min_buffers nodes in the list
            and last is not NULL then free the last node */
-        if(node->next == NULL && n > opt_min_buffers() && last != NULL) {
+        if(node->next == NULL && node->fd == 0 && n > opt_min_buffers() && last != NULL) {
             free(node);
             node = NULL;
             last->next = NULL;
diff --git a/src/server/message.c b/src/server/message.c
index 69f0d51..0242e9c 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -309,7 +309,7 @@ msg_receive(void)
             return ERR_MSG_RECV;
         }
     } else if(result == 0) { /* Timeout */
-        buff_freeall(); /* this erases all of the _buffer nodes */
+        buff_freeall(); /* this frees unused _buffer nodes */
         return 0;
     } else {
         for(n = 0; n <= _maxfd; n++) {
@@ -330,7 +330,7 @@ msg_receive(void)
                         module_unregister(n);
                         msg_del_fd(n);
                     } else if(result < 0) {
-                        return result; /* Pass the error up */
+                        dax_log(DAX_LOG_ERROR, "Unable to read message from fd %d: %d", n, result);
                     }
                 }
             }
@@ -358,7 +358,6 @@ msg_dispatcher(int fd, unsigned char *buff)
     if(CHECK_COMMAND(message.msg_type)) return ERR_MSG_BAD;
     message.fd = fd;
     memcpy(message.data, &buff[8], message.size);
-    buff_free(fd);
     /* Now call the function to deal with it */
     return (*cmd_arr[message.msg_type])(&message);
 }
-- 
2.43.0


From e154c17f916c41e32e6b57fcfc247f855c6d0746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:46 +0000
Subject: [PATCH 02/64] fix: answer every well framed request and check the
 size of message payloads

Unknown commands, short payloads and the commands that have no handler yet
got no answer at all, group messages from unregistered connections
dereferenced a NULL module, and strings were not terminated.  The event
delete and option messages replied with 8 bytes from a 4 byte variable and
never reported an error, and the library received those into 4 bytes.
---
 src/lib/libmsg.c     |  4 +-
 src/server/message.c | 92 ++++++++++++++++++++++++++++++++------------
 2 files changed, 69 insertions(+), 27 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 19c7ab3..36b3cb0 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -1251,7 +1251,7 @@ dax_event_del(dax_state *ds, dax_id id)
         pthread_mutex_unlock(&ds->lock);
         return result;
     } else {
-        test = _message_recv(ds, MSG_EVNT_DEL, &result, &size, 1);
+        test = _message_recv(ds, MSG_EVNT_DEL, buff, &size, 1);
         if(test) {
             pthread_mutex_unlock(&ds->lock);
             return test;
@@ -1306,7 +1306,7 @@ dax_event_options(dax_state *ds, dax_id id, uint32_t options)
         pthread_mutex_unlock(&ds->lock);
         return result;
     } else {
-        test = _message_recv(ds, MSG_EVNT_OPT, &result, &size, 1);
+        test = _message_recv(ds, MSG_EVNT_OPT, buff, &size, 1);
         pthread_mutex_unlock(&ds->lock);
         return test;
     }
diff --git a/src/server/message.c b/src/server/message.c
index 0242e9c..b920b51 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -57,6 +57,18 @@ static int _maxfd;
 /* Index 0 is not used. */
 int (*cmd_arr[NUM_COMMANDS+1])(dax_message *) = {NULL};
 
+/* The smallest payload that makes sense for each message command */
+static const uint32_t _min_size[NUM_COMMANDS+1] = {
+    [MSG_TAG_ADD]    = 13, [MSG_TAG_DEL]    = 4,  [MSG_TAG_GET]    = 2,
+    [MSG_TAG_READ]   = 12, [MSG_TAG_WRITE]  = 8,  [MSG_TAG_MWRITE] = 8,
+    [MSG_EVNT_ADD]   = 25, [MSG_EVNT_DEL]   = 8,  [MSG_EVNT_OPT]   = 12,
+    [MSG_CDT_CREATE] = 1,  [MSG_CDT_GET]    = 2,  [MSG_MAP_ADD]    = 42,
+    [MSG_MAP_DEL]    = 8,  [MSG_MAP_GET]    = 8,  [MSG_GRP_ADD]    = 2,
+    [MSG_GRP_DEL]    = 4,  [MSG_GRP_READ]   = 4,  [MSG_GRP_WRITE]  = 4,
+    [MSG_ATOMIC_OP]  = 21, [MSG_ADD_OVRD]   = 12, [MSG_DEL_OVRD]   = 8,
+    [MSG_GET_OVRD]   = 12, [MSG_SET_OVRD]   = 5
+};
+
 /* Macro to check whether or not the command 'x' is valid */
 #define CHECK_COMMAND(x) (((x) <= 0 || (x) > NUM_COMMANDS) ? 1 : 0)
 
@@ -347,6 +359,7 @@ int
 msg_dispatcher(int fd, unsigned char *buff)
 {
     dax_message message;
+    int result;
 
     /* The first four bytes are the size and the size is always
      * sent in network order */
@@ -355,8 +368,13 @@ msg_dispatcher(int fd, unsigned char *buff)
      * byte order. */
     message.msg_type = ntohl(*(uint32_t *)&buff[4]);
 
-    if(CHECK_COMMAND(message.msg_type)) return ERR_MSG_BAD;
+    if(CHECK_COMMAND(message.msg_type) || message.size < _min_size[message.msg_type]) {
+        result = ERR_MSG_BAD;
+        _message_send(fd, message.msg_type, &result, sizeof(result), ERROR);
+        return result;
+    }
     message.fd = fd;
+    bzero(message.data, MSG_DATA_SIZE);
     memcpy(message.data, &buff[8], message.size);
     /* Now call the function to deal with it */
     return (*cmd_arr[message.msg_type])(&message);
@@ -383,6 +401,7 @@ msg_mod_register(dax_message *msg)
     dax_time starttime;
 
     if(msg->size > 0) {
+        msg->data[MSG_DATA_SIZE-1] = '\0'; /* Just to be safe */
         /* The first parameter is the timeout if the first registration and
          * the module id if it's the async socket registration. */
         parint = ntohl(*((uint32_t *)&msg->data[0]));
@@ -430,6 +449,7 @@ msg_tag_add(dax_message *msg)
     uint32_t count;
     uint32_t attr;
 
+    msg->data[MSG_DATA_SIZE-1] = '\0'; /* Just to be safe */
     type = *((uint32_t *)&msg->data[0]);
     count = *((uint32_t *)&msg->data[4]);
     attr = *((uint32_t *)&msg->data[8]);
@@ -487,12 +507,13 @@ msg_tag_get(dax_message *msg)
     dax_tag tag;
     char *buff;
 
+    tag.name[0] = '\0'; /* In case we don't find it */
     if(msg->data[0] == TAG_GET_INDEX) { /* Is it a string or index */
         index = *((tag_index *)&msg->data[1]); /* cast void * -> handle_t * then indirect */
         result = tag_get_index(index, &tag); /* get the tag */
         dax_log(DAX_LOG_MSG, "Tag Get Message from %d for index 0x%X", msg->fd, index);
     } else { /* A name was passed */
-        ((char *)msg->data)[DAX_TAGNAME_SIZE + 1] = 0x00; /* Add a NULL to avoid trouble */
+        msg->data[MSG_DATA_SIZE-1] = '\0'; /* Add a NULL to avoid trouble */
         /* Get the tag by it's name */
         result = tag_get_name((char *)&msg->data[1], &tag);
         dax_log(DAX_LOG_MSG, "Tag Get Message from %d for name '%s'", msg->fd, (char *)msg->data);
@@ -519,7 +540,10 @@ msg_tag_get(dax_message *msg)
 int
 msg_tag_list(dax_message *msg)
 {
+    int result = ERR_NOTIMPLEMENTED;
+
     dax_log(DAX_LOG_MSG, "Tag List Message from %d", msg->fd);
+    _message_send(msg->fd, MSG_TAG_LIST, &result, sizeof(result), ERROR);
     return 0;
 }
 
@@ -541,7 +565,11 @@ msg_tag_read(dax_message *msg)
 
     dax_log(DAX_LOG_MSG, "Tag Read Message from module %d, index %d, offset %d, size %d", msg->fd, index, offset, size);
 
-    result = tag_read(msg->fd, index, offset, &data, size);
+    if(size < 0 || size > (int)MSG_DATA_SIZE) {
+        result = ERR_2BIG;
+    } else {
+        result = tag_read(msg->fd, index, offset, &data, size);
+    }
     if(result) {
         _message_send(msg->fd, MSG_TAG_READ, &result, sizeof(result), ERROR);
     } else {
@@ -660,8 +688,8 @@ msg_evnt_del(dax_message *msg)
 
     result = event_del(idx, id, module);
 
-    if(idx >= 0) {
-        _message_send(msg->fd, MSG_EVNT_DEL, &idx, 8, RESPONSE);
+    if(result == 0) {
+        _message_send(msg->fd, MSG_EVNT_DEL, msg->data, 8, RESPONSE);
     } else {
         _message_send(msg->fd, MSG_EVNT_DEL, &result, sizeof(result), ERROR);
     }
@@ -671,6 +699,9 @@ msg_evnt_del(dax_message *msg)
 int
 msg_evnt_get(dax_message *msg)
 {
+    int result = ERR_NOTIMPLEMENTED;
+
+    _message_send(msg->fd, MSG_EVNT_GET, &result, sizeof(result), ERROR);
     return 0;
 }
 
@@ -691,8 +722,8 @@ msg_evnt_opt(dax_message *msg)
 
     result = event_opt(idx, id, options, module);
 
-    if(idx >= 0) {
-        _message_send(msg->fd, MSG_EVNT_OPT, &idx, 8, RESPONSE);
+    if(result == 0) {
+        _message_send(msg->fd, MSG_EVNT_OPT, msg->data, 8, RESPONSE);
     } else {
         _message_send(msg->fd, MSG_EVNT_OPT, &result, sizeof(result), ERROR);
     }
@@ -725,7 +756,6 @@ msg_cdt_get(dax_message *msg)
     int result, size;
     unsigned char subcommand;
     tag_type cdt_type;
-    char type[DAX_TAGNAME_SIZE + 1];
     char *str = NULL, *data = NULL;
 
     result = 0;  /* result will stay zero if we don't have any errors */
@@ -734,10 +764,9 @@ msg_cdt_get(dax_message *msg)
         cdt_type = *((tag_type *)&msg->data[1]);
         dax_log(DAX_LOG_MSG, "CDT Get for type 0x%X Message from Module %d", cdt_type, msg->fd);
     } else {
-        strncpy(type, &msg->data[1], DAX_TAGNAME_SIZE);
-        type[DAX_TAGNAME_SIZE] = '\0';  /* Just to be sure */
-        cdt_type = cdt_get_type(type);
-        dax_log(DAX_LOG_MSG, "CDT Get for type %s Message from Module %d", type, msg->fd);
+        msg->data[MSG_DATA_SIZE-1] = '\0';  /* Just to be sure */
+        cdt_type = cdt_get_type(&msg->data[1]);
+        dax_log(DAX_LOG_MSG, "CDT Get for type %s Message from Module %d", &msg->data[1], msg->fd);
     }
 
     size = serialize_datatype(cdt_type, &str);
@@ -825,6 +854,9 @@ int msg_map_get(dax_message *msg)
     tag_handle src, dest;
     uint8_t buff[sizeof(tag_handle) * 2];
 
+    bzero(buff, sizeof(buff));
+    bzero(&src, sizeof(tag_handle));
+    bzero(&dest, sizeof(tag_handle));
     id.index = *(dax_dint *)msg->data;
     id.id = *(dax_dint *)&msg->data[4];
 
@@ -862,14 +894,20 @@ msg_group_add(dax_message *msg) {
     mod = module_find_fd(msg->fd);
     count = msg->data[0];
     //options = msg->data[1]; /* Might use this in the future to indicate maskable groups */
-    id = group_add(mod, (uint8_t *)&msg->data[2], count);
+    if(mod == NULL) {
+        id = ERR_AUTH;
+    } else if(msg->size < 2 + count * 21) {
+        id = ERR_MSG_BAD;
+    } else {
+        id = group_add(mod, (uint8_t *)&msg->data[2], count);
+    }
 
     if(id < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_ADD, &id, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Add Message for %s Returning Error %d",mod->name, id);
+        dax_log(DAX_LOG_MSGERR, "Group Add Message from %d Returning Error %d", msg->fd, id);
     } else {
         _message_send(msg->fd, MSG_GRP_ADD, &id, sizeof(int), RESPONSE);
-        dax_log(DAX_LOG_MSG, "Group Add Message for %s", mod->name);
+        dax_log(DAX_LOG_MSG, "Group Add Message from %d", msg->fd);
     }
     return 0;
 }
@@ -882,13 +920,13 @@ msg_group_del(dax_message *msg) {
 
     mod = module_find_fd(msg->fd);
     memcpy(&index, &msg->data[0], 4);
-    result = group_del(mod, index);
+    result = (mod == NULL) ? ERR_AUTH : group_del(mod, index);
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_DEL, &result, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Delete Message for %s Returning Error %d",mod->name, result);
+        dax_log(DAX_LOG_MSGERR, "Group Delete Message from %d Returning Error %d", msg->fd, result);
      } else {
         _message_send(msg->fd, MSG_GRP_DEL, &result, sizeof(int), RESPONSE);
-        dax_log(DAX_LOG_MSG, "Group Delete Message for %s", mod->name);
+        dax_log(DAX_LOG_MSG, "Group Delete Message from %d", msg->fd);
     }
     return 0;
 }
@@ -902,13 +940,13 @@ msg_group_read(dax_message *msg) {
 
     mod = module_find_fd(msg->fd);
     memcpy(&index, &msg->data[0], 4);
-    result = group_read(mod, index, buff, MSG_TAG_GROUP_DATA_SIZE);
+    result = (mod == NULL) ? ERR_AUTH : group_read(mod, index, buff, MSG_TAG_GROUP_DATA_SIZE);
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_READ, &result, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Read Message for %s Returning Error %d",mod->name, result);
+        dax_log(DAX_LOG_MSGERR, "Group Read Message from %d Returning Error %d", msg->fd, result);
     } else {
         _message_send(msg->fd, MSG_GRP_READ, buff, result, RESPONSE);
-        dax_log(DAX_LOG_MSG, "Group Read Message for %s", mod->name);
+        dax_log(DAX_LOG_MSG, "Group Read Message from %d", msg->fd);
     }
     return 0;
 }
@@ -922,13 +960,13 @@ msg_group_write(dax_message *msg) {
     mod = module_find_fd(msg->fd);
     memcpy(&index, &msg->data[0], 4);
 
-    result = group_write(mod, index, (uint8_t *)&msg->data[4]);
+    result = (mod == NULL) ? ERR_AUTH : group_write(mod, index, (uint8_t *)&msg->data[4]);
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_WRITE, &result, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Write Message for %s Returning Error %d",mod->name, result);
+        dax_log(DAX_LOG_MSGERR, "Group Write Message from %d Returning Error %d", msg->fd, result);
     } else {
         _message_send(msg->fd, MSG_GRP_WRITE, NULL, 0, RESPONSE);
-        dax_log(DAX_LOG_MSG, "Group Write Message for %s", mod->name);
+        dax_log(DAX_LOG_MSG, "Group Write Message from %d", msg->fd);
     }
     return 0;
 }
@@ -1025,7 +1063,11 @@ msg_get_override(dax_message *msg) {
     size = *((uint32_t *)&msg->data[8]);
     dax_log(DAX_LOG_MSG, "Get Override Message from module %d, index %d, byte %d, size %d", msg->fd, index, byte, size);
 
-    result = override_get(index, byte, size, buff, &buff[size]);
+    if(size < 0 || size > (int)(MSG_DATA_SIZE / 2)) {
+        result = ERR_2BIG;
+    } else {
+        result = override_get(index, byte, size, buff, &buff[size]);
+    }
 
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GET_OVRD, &result, sizeof(int), ERROR);
-- 
2.43.0


From 29312e52e7c0192e96e219854653e02d847e5853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:01 +0000
Subject: [PATCH 03/64] fix: let the owner of a read only tag use masked writes

---
 src/server/message.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/message.c b/src/server/message.c
index b920b51..b9ed390 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -625,7 +625,7 @@ msg_tag_mask_write(dax_message *msg)
     mask = &msg->data[8 + size];
 
     dax_log(DAX_LOG_MSG, "Tag Masked Write Message from module %d, index %d, offset %d, size %d", msg->fd, idx, offset, size);
-    if(is_tag_readonly(idx)) {
+    if(is_tag_readonly(idx) && ! is_tag_owned(msg->fd, idx)) {
         result =  ERR_READONLY;
     } else {
         result = tag_mask_write(msg->fd, idx, offset, data, mask, size);
-- 
2.43.0


From eee75a904d554e256fc6e44fcbc3cf6cb46486aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:01 +0000
Subject: [PATCH 04/64] fix: check the bounds of tag reads and writes against
 the tag

Negative and overflowing offsets, bad indexes and partial reads of virtual
tags reached memory outside of the tag, and queues of compound or BOOL types
used the wrong size.
---
 src/libcommon.h         |  2 +-
 src/server/tagbase.c    | 55 ++++++++++++++++++++++++++---------------
 src/server/virtualtag.c | 10 +++++---
 3 files changed, 43 insertions(+), 24 deletions(-)

diff --git a/src/libcommon.h b/src/libcommon.h
index c2d8199..a812c28 100644
--- a/src/libcommon.h
+++ b/src/libcommon.h
@@ -88,7 +88,7 @@
 #define CDT_GET_TYPE    0x02 /* Retrieve the type by it's type */
 
 /* Some Macros for manipulating CDT types */
-#define CDT_TO_INDEX(TYPE) (TYPE & ~DAX_CUSTOM)
+#define CDT_TO_INDEX(TYPE) ((TYPE) & ~(DAX_CUSTOM | DAX_QUEUE))
 #define CDT_TO_TYPE(INDEX) (INDEX | DAX_CUSTOM)
 
 /* Maximum size allowed for a single message */
diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 42a5206..7f43317 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -700,27 +700,39 @@ get_tagindex(void) {
     return _tagnextindex;
 }
 
+/* Returns true if the index is one that we have given to a tag */
+static inline int
+_index_ok(tag_index idx) {
+    return idx >= 0 && idx < _tagnextindex;
+}
+
+/* Returns true if the block given by offset and size is inside of the tag. */
+static int
+_range_ok(tag_index idx, int offset, int size) {
+    return offset >= 0 && size >= 0 && (int64_t)offset + size <= tag_get_size(idx);
+}
+
 /* Returns true if the tag at the given index is read only */
 int
 is_tag_readonly(tag_index idx) {
-    return (_db[idx].attr & TAG_ATTR_READONLY );
+    return _index_ok(idx) && (_db[idx].attr & TAG_ATTR_READONLY );
 }
 
 /* Returns true if the tag at the given index is a virtual tag */
 int
 is_tag_virtual(tag_index idx) {
-    return (_db[idx].attr & TAG_ATTR_VIRTUAL );
+    return _index_ok(idx) && (_db[idx].attr & TAG_ATTR_VIRTUAL );
 }
 
 /* Returns true if tag at the given index is a queue */
 int
 is_tag_queue(tag_index idx) {
-    return IS_QUEUE(_db[idx].type);
+    return _index_ok(idx) && IS_QUEUE(_db[idx].type);
 }
 
 int
 is_tag_owned(int fd, tag_index idx) {
-    return (_db[idx].attr & TAG_ATTR_OWNED && _db[idx].fd == fd);
+    return _index_ok(idx) && (_db[idx].attr & TAG_ATTR_OWNED && _db[idx].fd == fd);
 }
 
 
@@ -750,15 +762,16 @@ tag_read(int fd, tag_index idx, int offset, void *data, int size)
          * pointed to by the *data pointer */
         vf = (virt_functions *)_db[idx].data;
         if(vf->rf == NULL) return ERR_WRITEONLY;
+        if(!_range_ok(idx, offset, size)) return ERR_2BIG;
         return vf->rf(fd, idx, offset, data, size, vf->userdata);
     } else {
-        /* Bounds check size */
-        if( (offset + size) > tag_get_size(idx)) {
-            return ERR_2BIG;
-        }
         if(_db[idx].data == NULL) {
             return ERR_DELETED;
         }
+        /* Bounds check size */
+        if(!_range_ok(idx, offset, size)) {
+            return ERR_2BIG;
+        }
         /* Copy the data into the right place. */
         memcpy(data, &(_db[idx].data[offset]), size);
         /* If the tag is special then call the hook */
@@ -798,19 +811,19 @@ tag_write(int fd, tag_index idx, int offset, void *data, int size)
        if(vf->wf == NULL) return ERR_READONLY;
        return vf->wf(fd, idx, offset, data, size, vf->userdata);
     } else {
-        /* Bounds check size */
-        if( (offset + size) > tag_get_size(idx)) {
-            return ERR_2BIG;
-        }
         if(_db[idx].data == NULL) {
             return ERR_DELETED;
         }
+        /* Bounds check size */
+        if(!_range_ok(idx, offset, size)) {
+            return ERR_2BIG;
+        }
         if(_db[idx].attr & TAG_ATTR_SPECIAL) {
             result = special_tag_write(fd, idx, offset, data, size);
             if(result) return result;
         }
         /* Copy the data into the right place. */
-        memcpy(&(_db[idx].data[offset]), data, size);
+        memmove(&(_db[idx].data[offset]), data, size);
         event_check(idx, offset, size);
     }
 
@@ -828,20 +841,20 @@ tag_mask_write(int fd, tag_index idx, int offset, void *data, void *mask, int si
     uint8_t *db, *newdata, *newmask;
     int n, result;
 
-    /* We don't allow masked writes to virtual tags.  This would be
-     * too ambiguous */
-    if(_db[idx].attr & TAG_ATTR_VIRTUAL) return ERR_ILLEGAL;
     /* Bounds check handle */
     if(idx < 0 || idx >= _tagnextindex) {
         return ERR_ARG;
     }
-    /* Bounds check size */
-    if( (offset + size) > tag_get_size(idx)) {
-        return ERR_2BIG;
-    }
+    /* We don't allow masked writes to virtual tags.  This would be
+     * too ambiguous */
+    if(_db[idx].attr & TAG_ATTR_VIRTUAL) return ERR_ILLEGAL;
     if(_db[idx].data == NULL) {
         return ERR_DELETED;
     }
+    /* Bounds check size */
+    if(!_range_ok(idx, offset, size)) {
+        return ERR_2BIG;
+    }
     if(_db[idx].attr & TAG_ATTR_SPECIAL) {
         result = special_tag_mask_write(fd, idx, offset, data, mask, size);
         if(result) return result;
@@ -1441,6 +1454,8 @@ type_size(tag_type type)
         } else {
             size = 0;
         }
+    } else if((type & ~DAX_QUEUE) == DAX_BOOL) {
+        size = 1; /* A single BOOL still takes up a whole byte */
     } else { /* Not IS_CUSTOM() */
         size = TYPESIZE(type) / 8; /* Size in bytes */
     }
diff --git a/src/server/virtualtag.c b/src/server/virtualtag.c
index a8984b4..acba246 100644
--- a/src/server/virtualtag.c
+++ b/src/server/virtualtag.c
@@ -54,7 +54,7 @@ server_time(int fd, tag_index idx, int offset, void *data, int size, void *userd
     dax_time t;
 
     t = xtime();
-    memcpy(data, &t, size);
+    memcpy(data, (char *)&t + offset, size);
     return 0;
 }
 
@@ -63,13 +63,15 @@ get_module_tag_name(int fd, tag_index idx, int offset, void *data, int size, voi
     int result;
     dax_tag tag;
     dax_module *mod;
+    char name[DAX_TAGNAME_SIZE + 1];
 
     mod = module_find_fd(fd);
     if(mod == NULL || mod->tagindex == 0) return ERR_NOTFOUND;
     result = tag_get_index(mod->tagindex, &tag);
     if(result) return result;
-    bzero(data, DAX_TAGNAME_SIZE);
-    memcpy(data, tag.name, strlen(tag.name)+1);
+    bzero(name, DAX_TAGNAME_SIZE + 1);
+    strcpy(name, tag.name);
+    memcpy(data, &name[offset], size);
     return 0;
 }
 
@@ -117,6 +119,8 @@ read_queue(int fd, tag_index idx, int offset, void *data, int size, void *userda
     tag_queue *q;
 
     q = (tag_queue *)userdata;
+    /* Just like the write we only deal with whole items */
+    if(offset != 0 || size != q->size) return ERR_ILLEGAL;
     if(q->qcount == 0) {
         return ERR_EMPTY;
     }
-- 
2.43.0


From 740ecac8e6f9fbf3f4a493043caf3be83289185e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:01 +0000
Subject: [PATCH 05/64] fix: do not share item buffers after a tag queue has
 grown

The moved part of the queue kept its old pointers and the new part was not
initialized, so items overwrote each other or were written to random memory.
---
 src/server/virtualtag.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server/virtualtag.c b/src/server/virtualtag.c
index acba246..53b65c1 100644
--- a/src/server/virtualtag.c
+++ b/src/server/virtualtag.c
@@ -94,10 +94,12 @@ write_queue(int fd, tag_index idx, int offset, void *data, int size, void *userd
         new_queue = realloc(q->queue, sizeof(void *) * newqsize);
         if(new_queue == NULL) return ERR_ALLOC;
         q->queue = (void **)new_queue;
+        bzero(&q->queue[q->qsize], q->qsize * sizeof(void *));
         /* After the queue size is increased we need to move the fragment that is now
          * at the beginning of the queue to the start of the new area */
         if(q->qread > 0) {
             memcpy(&q->queue[q->qsize], &q->queue[0], q->qread*sizeof(void *));
+            bzero(&q->queue[0], q->qread * sizeof(void *));
         }
         q->qsize = newqsize;
     }
-- 
2.43.0


From a7dcbd8985597184e5ffa0c88db215ee77b18f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:12 +0000
Subject: [PATCH 06/64] fix: initialize, grow and free everything that belongs
 to a tag

Growing a tag left its new elements and its overrides uninitialized or too
small, a grown queue lost its contents, deleted tags leaked their overrides
and queue and left the override counters wrong, new database slots were not
cleared, and the tag description written to the system tags overran its
buffer.  Tag sizes are computed with 64 bits so they can't wrap, and the
module that asks for ownership of a tag becomes the owner.
---
 src/server/tagbase.c | 131 +++++++++++++++++++++++++++++++++----------
 1 file changed, 101 insertions(+), 30 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 7f43317..401497f 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -20,6 +20,7 @@
 
 #include <ctype.h>
 #include <assert.h>
+#include <limits.h>
 #include <common.h>
 #include "tagbase.h"
 #include "retain.h"
@@ -203,7 +204,9 @@ _database_grow(void)
     if(new_index != NULL && new_db != NULL) {
         _index = new_index;
         _db = new_db;
+        bzero(&_db[_dbsize], _dbsize * sizeof(_dax_tag_db));
         _dbsize *= 2;
+        set_dbsize(_dbsize);
         return 0;
     } else {
         /* This is to shrink the one that didn't get allocated
@@ -315,8 +318,8 @@ _queue_add(int idx, tag_type type, unsigned int count) {
     vf.userdata = (uint8_t *)q;
     _db[idx].data = malloc(sizeof(virt_functions));
     if(_db[idx].data == NULL) {
-        free(q);
         free(q->queue);
+        free(q);
         return ERR_ALLOC;
     }
     memcpy(_db[idx].data, &vf, sizeof(virt_functions));
@@ -325,6 +328,21 @@ _queue_add(int idx, tag_type type, unsigned int count) {
     return 0;
 }
 
+/* Frees the items and everything else that _queue_add() allocated, except
+ * for the virt_functions structure itself */
+static void
+_queue_free(virt_functions *vf) {
+    tag_queue *q;
+    int n;
+
+    q = (tag_queue *)vf->userdata;
+    for(n = 0; n < q->qsize; n++) {
+        free(q->queue[n]);
+    }
+    free(q->queue);
+    free(q);
+}
+
 /* This function adds a virtual tag to the system.  When this tag is read, the data will
  * come from the function given by rf. And when written the data will be passed to wf.  If
  * rf == NULL then the tag will be write only and reads will return an error and likewise if
@@ -429,13 +447,15 @@ initialize_tagbase(void)
 }
 
 static void
-_set_attribute(tag_index idx, uint32_t attr) {
+_set_attribute(int fd, tag_index idx, uint32_t attr) {
     /* We only let the Tag Retention attribute to be set at this point */
     if(attr & TAG_ATTR_RETAIN) {
         /* TODO: add tag retention */;
         ret_add_tag(idx);
         _db[idx].attr |= TAG_ATTR_RETAIN;
     } else {
+        /* The module that asks for it is the one that owns the tag */
+        if(attr & TAG_ATTR_OWNED) _db[idx].fd = fd;
         if(attr & TAG_ATTR_OWNED && attr & TAG_ATTR_READONLY) {
             _db[idx].attr |= (TAG_ATTR_OWNED | TAG_ATTR_READONLY);
         } else if(attr & TAG_ATTR_OWNED) {
@@ -444,6 +464,32 @@ _set_attribute(tag_index idx, uint32_t attr) {
     }
 }
 
+/* Writes the description of the tag 'idx' to one of the system tags that
+ * are used to announce changes to the tag directory */
+static void
+_write_tag_desc(tag_index desc, tag_index idx) {
+    uint8_t tag_desc[47];
+
+    memset(tag_desc, 0, sizeof(tag_desc));
+    *((tag_index *)tag_desc) = idx;
+    *((tag_type *)&tag_desc[4]) = _db[idx].type;
+    *((dax_udint *)&tag_desc[8]) = _db[idx].count;
+    *((uint16_t *)&tag_desc[12]) = _db[idx].attr;
+    strncpy((char *)&tag_desc[14], _db[idx].name, DAX_TAGNAME_SIZE);
+    tag_write(-1, desc, 0, tag_desc, sizeof(tag_desc));
+}
+
+/* Enlarges one of the data areas of a tag and clears the new part.  If it
+ * fails it returns NULL and the old area is not changed. */
+static uint8_t *
+_grow_data(uint8_t *data, size_t oldsize, size_t newsize) {
+    uint8_t *new;
+
+    new = xrealloc(data, newsize);
+    if(new != NULL) bzero(&new[oldsize], newsize - oldsize);
+    return new;
+}
+
 /* This adds a tag to the database. It takes a string for the name
  * of the tag, the type (see opendax.h for types) and a count.  If
  * count is greater than 1 an array is created.  It returns the index
@@ -452,10 +498,9 @@ tag_index
 tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
 {
     int n;
-    void *newdata;
-    unsigned int size;
-    int result;
-    uint8_t tag_desc[47];
+    uint8_t *newdata;
+    uint64_t size;
+    int result, oldsize;
 
     if(count == 0) {
         dax_log(DAX_LOG_ERROR, "tag_add() called with count = 0");
@@ -484,7 +529,11 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     if(type == DAX_BOOL) {
         size = count / 8 + 1;
     } else {
-        size = type_size(type) * count;
+        size = (uint64_t)type_size(type) * count;
+    }
+    if(size > INT_MAX) {
+        dax_log(DAX_LOG_MSGERR, "Tag %s is too big", name);
+        return ERR_2BIG;
     }
 
     /* Check for an existing tagname in the database */
@@ -494,18 +543,29 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
         }
         /* If the tag is identical or bigger then just return the handle */
         if(_db[n].type == type && _db[n].count >= count) {
-            _set_attribute(n, attr);
+            _set_attribute(fd, n, attr);
             return n;
-        } else if(_db[n].type == type && _db[n].count < count) {
+        } else if(_db[n].type == type && _db[n].count < count && !IS_QUEUE(type)) {
             /* If the new count is greater than the existing count then lets
              try to increase the size of the tags data */
-            newdata = xrealloc(_db[n].data, size);
+            oldsize = tag_get_size(n);
+            newdata = _grow_data(_db[n].data, oldsize, size);
+            if(newdata != NULL) _db[n].data = newdata;
+            /* The overrides have to cover the new part as well */
+            if(newdata != NULL && _db[n].odata != NULL) {
+                newdata = _grow_data(_db[n].odata, oldsize, size);
+                if(newdata != NULL) _db[n].odata = newdata;
+            }
+            if(newdata != NULL && _db[n].omask != NULL) {
+                newdata = _grow_data(_db[n].omask, oldsize, size);
+                if(newdata != NULL) _db[n].omask = newdata;
+            }
             if(newdata) {
-                _db[n].data = newdata;
                 _db[n].count = count;
-                _set_attribute(n, attr);
+                if(_db[n].attr & TAG_ATTR_RETAIN) ret_add_tag(n);
+                _set_attribute(fd, n, attr);
                 /* Since it changed we update this tag so the write event will trigger */
-                tag_write(-1, INDEX_ADDED_TAG, 0, &n, sizeof(tag_index));
+                _write_tag_desc(INDEX_ADDED_TAG, n);
                 return n;
             } else {
                 dax_log(DAX_LOG_ERROR, "Unable to allocate memory to grow the size of tag %s", name);
@@ -522,11 +582,16 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     /* Assign everything to the new tag, copy the string and git */
     _db[n].count = count;
     _db[n].type = type;
+    _db[n].attr = 0;
 
     /* If the type is a queue the data area will be allocated in the
      * queue_add() function instead of here */
     if(IS_QUEUE(type)) {
-        _queue_add(n, type, count);
+        result = _queue_add(n, type, count);
+        if(result) {
+            _db[n].data = NULL;
+            return result;
+        }
     } else {
         /* Allocate the data area */
         if((_db[n].data = xmalloc(size)) == NULL){
@@ -540,12 +605,15 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     _db[n].nextmap = 1;
     _db[n].fd = fd;
     _db[n].events = NULL;
+    _db[n].mappings = NULL;
     _db[n].omask = NULL;
     _db[n].odata = NULL;
 
     if(_add_index(name, n)) {
         /* free up our previous allocation if we can't put this in the __index */
+        if(IS_QUEUE(type)) _queue_free((virt_functions *)_db[n].data);
         free(_db[n].data);
+        _db[n].data = NULL;
         dax_log(DAX_LOG_ERROR, "Unable to allocate data for the tag database index");
         return ERR_ALLOC;
     }
@@ -561,16 +629,10 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     if(_db[INDEX_TAGCOUNT].data != NULL) {
         tag_write(-1, INDEX_TAGCOUNT, 0, &_tagcount, sizeof(tag_index));
     }
-    _set_attribute(n, attr);
+    _set_attribute(fd, n, attr);
 
     /* Update the '_tag_added' system tag */
-    memset(&tag_desc, 0, sizeof(dax_tag));
-    *((tag_index *)tag_desc) = n;
-    *((tag_type *)&tag_desc[4]) = type;
-    *((dax_udint *)&tag_desc[8]) = count;
-    *((uint16_t *)&tag_desc[12]) = attr;
-    memcpy(&tag_desc[14], name, DAX_TAGNAME_SIZE + 1);
-    tag_write(-1, INDEX_ADDED_TAG, 0, tag_desc, 47);
+    _write_tag_desc(INDEX_ADDED_TAG, n);
 
     dax_log(DAX_LOG_DEBUG, "Tag added with name = %s, type = 0x%X, count = %d", name, type, count);
 
@@ -602,7 +664,6 @@ tag_clr_attribute(tag_index index, uint32_t attr) {
 int
 tag_del(tag_index idx)
 {
-    uint8_t tag_desc[47];
 
     if(idx >= _tagnextindex || idx < 0) {
         dax_log(DAX_LOG_ERROR, "tag_del() pass index out of range %d", idx);
@@ -627,14 +688,24 @@ tag_del(tag_index idx)
     dax_log(DAX_LOG_DEBUG, "Tag deleted with name = %s", _db[idx].name);
 
     /* Update the '_tag_deleted' system tag */
-    memset(&tag_desc, 0, sizeof(dax_tag));
-    *((tag_index *)tag_desc) = idx;
-    *((tag_type *)&tag_desc[4]) = _db[idx].type;
-    *((dax_udint *)&tag_desc[8]) = _db[idx].count;
-    *((uint16_t *)&tag_desc[12]) = _db[idx].attr;
-    memcpy(&tag_desc[14], _db[idx].name, DAX_TAGNAME_SIZE + 1);
-    tag_write(-1, INDEX_DELETED_TAG, 0, tag_desc, 47);
+    _write_tag_desc(INDEX_DELETED_TAG, idx);
 
+    /* The overrides go away with the tag */
+    if(_db[idx].attr & TAG_ATTR_OVR_SET) {
+        _ovrdset--;
+        tag_write(-1, INDEX_OVRD_SET, 0, &_ovrdset, sizeof(tag_index));
+    }
+    if(_db[idx].attr & TAG_ATTR_OVERRIDE) {
+        _ovrdinstalled--;
+        tag_write(-1, INDEX_OVRD_INSTALLED, 0, &_ovrdinstalled, sizeof(tag_index));
+    }
+    xfree(_db[idx].odata);
+    xfree(_db[idx].omask);
+    _db[idx].odata = NULL;
+    _db[idx].omask = NULL;
+    if(IS_QUEUE(_db[idx].type)) {
+        _queue_free((virt_functions *)_db[idx].data);
+    }
     xfree(_db[idx].name);
     xfree(_db[idx].data);
     _db[idx].name = NULL;
-- 
2.43.0


From 1dde5182ba33ed412094bec256ed5fe010e0fd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:56 +0000
Subject: [PATCH 07/64] fix: validate events when they are added and evaluate
 them on whole items

Events with bad handles or types reached memory outside of the tag or hit
assertions, queue events crashed the server, partial writes compared the
wrong bytes, deadbands overflowed, TIME was treated as 32 bits, and deleting
the newest event used it after it was freed and reported an error.
---
 src/server/events.c | 186 +++++++++++++++++++++++---------------------
 1 file changed, 97 insertions(+), 89 deletions(-)

diff --git a/src/server/events.c b/src/server/events.c
index 9be0d52..ca455ef 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -36,6 +36,7 @@ _send_event(tag_index idx, _dax_event *event)
     int result;
     char buff[DAX_MSGMAX];
     uint32_t msgsize;
+    tag_queue *q;
 
     if(event->options & EVENT_OPT_SEND_DATA) {
         msgsize = event->size + 16; /* Calculate the total size of this message */
@@ -49,7 +50,12 @@ _send_event(tag_index idx, _dax_event *event)
     *(uint32_t *)(&buff[8])  = htonl(idx);
     *(uint32_t *)(&buff[12])  = htonl(event->id);
     if(event->options & EVENT_OPT_SEND_DATA) {
-        memcpy(&buff[16], &_db[idx].data[event->byte], event->size);
+        if(is_tag_queue(idx)) { /* For a queue the data is the item that was just written */
+            q = (tag_queue *)((virt_functions *)_db[idx].data)->userdata;
+            memcpy(&buff[16], q->queue[(q->qread + q->qcount - 1) % q->qsize], event->size);
+        } else {
+            memcpy(&buff[16], &_db[idx].data[event->byte], event->size);
+        }
     }
     dax_log(DAX_LOG_MSG, "Sending %d event to module %d",
          event->eventtype, event->notify->fd);
@@ -205,7 +211,6 @@ _generic_compare(tag_type datatype, void *data1, void *data2) {
             else return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             u1.dax_udint = *(dax_udint *)data1;
             u2.dax_udint = *(dax_udint *)data2;
             if(u1.dax_udint < u2.dax_udint) return -1;
@@ -225,6 +230,7 @@ _generic_compare(tag_type datatype, void *data1, void *data2) {
             else if(u1.dax_ulint > u2.dax_ulint) return 1;
             else return 0;
         case DAX_LINT:
+        case DAX_TIME:
             u1.dax_lint = *(dax_lint *)data1;
             u2.dax_lint = *(dax_lint *)data2;
             if(u1.dax_lint < u2.dax_lint) return -1;
@@ -256,11 +262,12 @@ _event_compare(_dax_event *event, tag_index idx, int offset, int size, int compa
 
     inc = TYPESIZE(event->datatype) / 8;
     /* For these 'this' is a bit field */
-    bit = MAX(0, (offset - event->byte) / inc);
+    bit = MAX(0, offset - event->byte) / inc;
     this = (uint8_t *)event->test;
-    that = (uint8_t *)&(_db[idx].data[MAX(offset, event->byte)]);
-    len = MIN(event->byte + event->size, offset + size) - MAX(offset, event->byte);
-    for(n = 0; n < len; n += inc) {
+    that = (uint8_t *)&(_db[idx].data[event->byte]);
+    len = MIN((int)event->size, offset + size - event->byte);
+    /* Start at the beginning of the first item that was touched */
+    for(n = bit * inc; n < len; n += inc) {
         mask = 0x01<<(bit%8);
         if(_generic_compare(event->datatype, event->data, &(that[n])) == compare) {
             if(!(this[bit/8] & mask)) {
@@ -275,6 +282,21 @@ _event_compare(_dax_event *event, tag_index idx, int offset, int size, int compa
     return result;
 }
 
+/* These calculate the absolute difference of two integers without overflowing
+ * and return 1 if it has reached the deadband. */
+static inline int
+_deadband_signed(dax_lint db, dax_lint a, dax_lint b) {
+    dax_ulint diff;
+
+    diff = (a > b) ? (dax_ulint)a - (dax_ulint)b : (dax_ulint)b - (dax_ulint)a;
+    return db < 0 || diff >= (dax_ulint)db;
+}
+
+static inline int
+_deadband_unsigned(dax_ulint db, dax_ulint a, dax_ulint b) {
+    return ((a > b) ? a - b : b - a) >= db;
+}
+
 /* This function calculates whether the deadband has been exceeded for each of the
  * different datatypes.  Returns 1 if the deadband has been exceeded and 0 otherwise */
 static inline int
@@ -283,50 +305,26 @@ _generic_deadband(_dax_event *event, void *data1, void *data2) {
 
     switch(event->datatype) {
         case DAX_BYTE:
-            db.dax_byte = *(dax_byte *)event->data;
-            diff.dax_int = *(dax_byte *)data1 - *(dax_byte *)data2;
-            if(ABS(diff.dax_int) >= db.dax_byte) return 1;
-            else return 0;
+            return _deadband_unsigned(*(dax_byte *)event->data, *(dax_byte *)data1, *(dax_byte *)data2);
         case DAX_SINT:
         case DAX_CHAR:
-            db.dax_sint = *(dax_sint *)event->data;
-            diff.dax_sint = *(dax_sint *)data1 - *(dax_sint *)data2;
-            if(ABS(diff.dax_sint) >= db.dax_sint) return 1;
-            else return 0;
+            return _deadband_signed(*(dax_sint *)event->data, *(dax_sint *)data1, *(dax_sint *)data2);
         case DAX_UINT:
         case DAX_WORD:
-            db.dax_uint = *(dax_uint *)event->data;
-            diff.dax_dint = *(dax_uint *)data1 - *(dax_uint *)data2;
-            if(ABS(diff.dax_dint) >= db.dax_uint) return 1;
-            else return 0;
+            return _deadband_unsigned(*(dax_uint *)event->data, *(dax_uint *)data1, *(dax_uint *)data2);
         case DAX_INT:
-            db.dax_int = *(dax_int *)event->data;
-            diff.dax_int = *(dax_int *)data1 - *(dax_int *)data2;
-            if(ABS(diff.dax_int) >= db.dax_int) return 1;
-            else return 0;
+            return _deadband_signed(*(dax_int *)event->data, *(dax_int *)data1, *(dax_int *)data2);
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
-            db.dax_udint = *(dax_udint *)event->data;
-            diff.dax_lint = *(dax_udint *)data1 - *(dax_udint *)data2;
-            if(ABS(diff.dax_lint) >= db.dax_udint) return 1;
-            else return 0;
+            return _deadband_unsigned(*(dax_udint *)event->data, *(dax_udint *)data1, *(dax_udint *)data2);
         case DAX_DINT:
-            db.dax_dint = *(dax_dint *)event->data;
-            diff.dax_dint = *(dax_dint *)data1 - *(dax_dint *)data2;
-            if(ABS(diff.dax_dint) >= db.dax_dint) return 1;
-            else return 0;
+            return _deadband_signed(*(dax_dint *)event->data, *(dax_dint *)data1, *(dax_dint *)data2);
         case DAX_ULINT:
         case DAX_LWORD:
-            db.dax_ulint = *(dax_ulint *)event->data;
-            diff.dax_lint = *(dax_ulint *)data1 - *(dax_ulint *)data2;
-            if(ABS(diff.dax_lint) >= db.dax_ulint) return 1;
-            else return 0;
+            return _deadband_unsigned(*(dax_ulint *)event->data, *(dax_ulint *)data1, *(dax_ulint *)data2);
         case DAX_LINT:
-            db.dax_lint = *(dax_lint *)event->data;
-            diff.dax_lint = *(dax_lint *)data1 - *(dax_lint *)data2;
-            if(ABS(diff.dax_lint) >= db.dax_lint) return 1;
-            else return 0;
+        case DAX_TIME:
+            return _deadband_signed(*(dax_lint *)event->data, *(dax_lint *)data1, *(dax_lint *)data2);
         case DAX_REAL:
             db.dax_real = *(dax_real *)event->data;
             diff.dax_real = *(dax_real *)data1 - *(dax_real *)data2;
@@ -350,11 +348,12 @@ _event_deadband(_dax_event *event, tag_index idx, int offset, int size) {
     result = 0;
 
     inc = TYPESIZE(event->datatype) / 8;
-    this = (uint8_t *)event->test + MAX(0, offset - event->byte);
-    that = (uint8_t *)&(_db[idx].data[MAX(offset, event->byte)]);
-    len = MIN(event->byte + event->size, offset + size) - MAX(offset, event->byte);
+    this = (uint8_t *)event->test;
+    that = (uint8_t *)&(_db[idx].data[event->byte]);
+    len = MIN((int)event->size, offset + size - event->byte);
 
-    for(n = 0; n < len; n += inc) {
+    /* Start at the beginning of the first item that was touched */
+    for(n = MAX(0, offset - event->byte) / inc * inc; n < len; n += inc) {
         if(_generic_deadband(event, &this[n], &that[n])) {
             result = 1;
             memcpy(&this[n], &that[n], inc);
@@ -405,13 +404,14 @@ void
 event_check(tag_index idx, int offset, int size) {
     _dax_event *this;
 
+    if(size <= 0) return; /* Nothing was written */
     this = _db[idx].events;
 
     while(this != NULL) {
         /* This is to check whether the the data ranges intersect.  If this
          * test passes then we have manipulated the data associated with
          * this event. */
-        if(offset <= (this->byte + this->size - 1) && (offset + size -1 ) >= this->byte) {
+        if(offset <= (this->byte + (int)this->size - 1) && (offset + size -1 ) >= this->byte) {
             if(_event_hit(this, idx, offset, size)) {
                 _send_event(idx, this);
             }
@@ -442,8 +442,8 @@ event_del_check(tag_index idx) {
 static inline int
 _verify_event_type(tag_type ttype, int etype)
 {
-    /* All datatypes can use Write or Change */
-    if(etype == EVENT_WRITE || etype == EVENT_CHANGE) {
+    /* All datatypes can use Write, Change or Deleted */
+    if(etype == EVENT_WRITE || etype == EVENT_CHANGE || etype == EVENT_DELETED) {
         return 0;
     }
     /* Only BOOL can use Set and Reset */
@@ -465,6 +465,10 @@ _verify_event_type(tag_type ttype, int etype)
             return 0;
         }
     }
+    if(etype != EVENT_GREATER && etype != EVENT_LESS && etype != EVENT_DEADBAND) {
+        dax_log(DAX_LOG_ERROR, "Unknown event type %d in new event", etype);
+        return -1;
+    }
     /* At this point the only ones left are < > and deadband.  All
      * except Booleans and Custom datatypes can use these */
     if(ttype == DAX_BOOL || ttype >= DAX_CUSTOM) {
@@ -473,9 +477,6 @@ _verify_event_type(tag_type ttype, int etype)
     } else {
         return 0;
     }
-    /* If we get here then we were given an unknown event type */
-    dax_log(DAX_LOG_ERROR, "Unknown datatype in new event");
-    return -1;
 }
 
 /* This function figures out how big the *data and *test memory blocks need
@@ -488,7 +489,7 @@ _verify_event_type(tag_type ttype, int etype)
  * code otherwise. */
 int
 _set_event_data(_dax_event *event, tag_index index, void *data) {
-    int datasize = 0, testsize = 0, size;
+    int datasize = 0, testsize = 0;
 
     /* Figure out how much memory to allocate */
     switch(event->eventtype) {
@@ -498,21 +499,16 @@ _set_event_data(_dax_event *event, tag_index index, void *data) {
             break;
         case EVENT_CHANGE:
             datasize = 0;
-            if(event->datatype == DAX_BOOL) {
-                testsize = (event->count - 1)/8 + 1;
-            } else {
-                testsize = type_size(event->datatype) * event->count;
-            }
+            testsize = event->size;
             break;
         case EVENT_DEADBAND:
-            size = type_size(event->datatype);
-            datasize = size;
-            testsize = size * event->count;
+            datasize = type_size(event->datatype);
+            testsize = event->size;
             break;
         case EVENT_SET:
         case EVENT_RESET:
             datasize = 0;
-            testsize = (event->count - 1)/8 + 1;
+            testsize = event->size;
             break;
         case EVENT_EQUAL:
         case EVENT_GREATER:
@@ -579,12 +575,16 @@ event_add(tag_handle h, int event_type, void *data, dax_module *module)
 {
     _dax_event *head, *new;
     int result;
+    int64_t size;
 
     /* Bounds check handle */
     if(h.index < 0 || h.index >= get_tagindex()) {
         dax_log(DAX_LOG_ERROR, "Tag index %d for new event is out of bounds", h.index);
         return ERR_ARG;
     }
+    if(_db[h.index].data == NULL) {
+        return ERR_DELETED;
+    }
     /* No events can be assigned to virtual tags unless it's a queue */
     if(is_tag_virtual(h.index) && ! is_tag_queue(h.index)) {
         dax_log(DAX_LOG_ERROR, "Events cannot be added to virtual events");
@@ -594,13 +594,25 @@ event_add(tag_handle h, int event_type, void *data, dax_module *module)
      * the entire tag not a partial handle. */
     if(is_tag_queue(h.index)) {
         if(h.byte != 0 || event_type != EVENT_WRITE ||
-           h.size != (tag_get_size(_db[h.index].type) * _db[h.index].count)) {
+           h.size != tag_get_size(h.index)) {
             dax_log(DAX_LOG_ERROR, "Only write events can be assigned for a queue");
             return ERR_ILLEGAL;
         }
+        size = h.size;
+    } else {
+        /* The rest of the event code depends on all of these agreeing */
+        if(type_size(h.type) <= 0 || IS_QUEUE(h.type) || h.count == 0 || h.bit > 7) {
+            dax_log(DAX_LOG_ERROR, "Bad handle given for new event");
+            return ERR_ARG;
+        }
+        if(h.type == DAX_BOOL) {
+            size = ((int64_t)h.bit + h.count - 1) / 8 + 1;
+        } else {
+            size = (int64_t)type_size(h.type) * h.count;
+        }
     }
     /* Bounds check size */
-    if( (h.byte + h.size) > tag_get_size(h.index)) {
+    if(h.byte < 0 || h.byte + size > tag_get_size(h.index)) {
         dax_log(DAX_LOG_ERROR, "Size of the affected data in the new event is too large");
         return ERR_2BIG;
     }
@@ -617,7 +629,7 @@ event_add(tag_handle h, int event_type, void *data, dax_module *module)
     new->id = _db[h.index].nextevent++;
     new->byte = h.byte;
     new->bit = h.bit;
-    new->size = h.size;
+    new->size = size;
     new->count = h.count;
     new->options = 0x0000;
     new->datatype = h.type;
@@ -673,46 +685,35 @@ _find_event(_dax_event **event, int index, int id) {
 int
 event_del(int index, int id, dax_module *module)
 {
-    _dax_event *this, *last;
-    int result = ERR_NOTFOUND;
+    _dax_event *this, *last = NULL;
 
     if(index >= get_tagindex() || index < 0) {
         dax_log(DAX_LOG_ERROR, "event_del() - index %d is out of range\n", index);
         return ERR_2BIG;
     }
     this = _db[index].events;
-    if(this == NULL) return ERR_NOTFOUND;
-    if(this->id == id) {
-        if(this->notify != module) {
-            dax_log(DAX_LOG_ERROR, "Module cannot delete another module's event");
-            return ERR_AUTH;
-        }
-        _db[index].events = this->next;
-        _free_event(this);
-    }
-    last = this;
-    this = this->next;
-    while(this != NULL) {
-        if(this->id == id) {
-            if(this->notify != module) {
-                dax_log(DAX_LOG_ERROR, "Module cannot delete another module's event");
-                return ERR_AUTH;
-            }
-            last->next = this->next;
-            _free_event(this);
-            result = 0;
-            break; /* Uggg */
-        }
+    while(this != NULL && this->id != id) {
         last = this;
         this = this->next;
     }
+    if(this == NULL) return ERR_NOTFOUND;
+    if(this->notify != module) {
+        dax_log(DAX_LOG_ERROR, "Module cannot delete another module's event");
+        return ERR_AUTH;
+    }
+    if(last == NULL) {
+        _db[index].events = this->next;
+    } else {
+        last->next = this->next;
+    }
+    _free_event(this);
     /* If there are no more events on this tag then reset the attibute flag */
     if(_db[index].events == NULL) {
         _db[index].attr &= ~TAG_ATTR_EVENT;
     }
     module->event_count--;
     dax_log(DAX_LOG_DEBUG, "Deleted event index: %d, id: %d, module: %s", index, id, module->name);
-    return result;
+    return 0;
 }
 
 /* Traverse the linked list of events and delete them all */
@@ -722,6 +723,7 @@ events_del_all(_dax_event *head) {
     this = head;
     while(this != NULL) {
         next = this->next;
+        this->notify->event_count--;
         _free_event(this);
         this = next;
     }
@@ -748,6 +750,11 @@ event_opt(int index, int id, uint32_t options, dax_module *module) {
         return ERR_AUTH;
     }
 
+    /* We wouldn't be able to send it if it doesn't fit in a message */
+    if((options & EVENT_OPT_SEND_DATA) && event->size + 16 > DAX_MSGMAX) {
+        dax_log(DAX_LOG_ERROR, "event_opt() - data is too large to send with the event");
+        return ERR_2BIG;
+    }
     event->options = options;
     return 0;
 }
@@ -757,7 +764,7 @@ event_opt(int index, int id, uint32_t options, dax_module *module) {
 int
 events_cleanup(dax_module *module) {
     int n, count;
-    _dax_event *this;
+    _dax_event *this, *next;
 
     count = get_tagindex();
     /* We start our scan at the bottom and work our way up.  It's probably
@@ -767,10 +774,11 @@ events_cleanup(dax_module *module) {
         if(_db[n].events != NULL) {
             this = _db[n].events;
             while(this != NULL) {
+                next = this->next;
                 if(this->notify == module) {
                     event_del(n, this->id, module);
                 }
-                this = this->next;
+                this = next;
             }
         }
     }
-- 
2.43.0


From fd87fa67200d15d4ffbf74dc16c54a98ea458000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:37 +0000
Subject: [PATCH 08/64] fix: check both ends of a mapping and keep the list of
 mappings intact

Bit mappings overran their mask, wrote the wrong bits when the destination had
a bit offset, removing a mapping dropped or crashed others, and mappings wrote
to tags that had become read only.
---
 src/server/mapping.c | 91 ++++++++++++++++++++++++++------------------
 src/server/tagbase.c | 25 ++++++++++++
 src/server/tagbase.h |  2 +
 3 files changed, 81 insertions(+), 37 deletions(-)

diff --git a/src/server/mapping.c b/src/server/mapping.c
index 8e28b55..99842dc 100644
--- a/src/server/mapping.c
+++ b/src/server/mapping.c
@@ -32,6 +32,7 @@ _new_map(tag_handle src, tag_handle dest)
     _dax_datamap *new;
 
     new = (_dax_datamap *)malloc(sizeof(_dax_datamap));
+    if(new == NULL) return NULL;
     new->id = _db[src.index].nextmap++;
     new->source = src;
     new->dest = dest;
@@ -60,15 +61,22 @@ _handles_equal(tag_handle h1, tag_handle h2)
            h1.size == h2.size );
 }
 
+/* The number of bits that the handle represents */
+static inline uint64_t
+_bit_count(tag_handle h)
+{
+    if(h.type == DAX_BOOL) return h.count;
+    return (uint64_t)h.size * 8;
+}
+
 int
 map_add(tag_handle src, tag_handle dest)
 {
     _dax_datamap *new_map;
     _dax_datamap *this;
-    int bit, offset;
+    int bit, offset, src_size, dest_size;
     uint8_t *mask;
 
-    DF("map added index1=%d, byte1, %d, size1=%d, index2=%d, byte2=%d, size2=%d", src.index, src.byte, src.size, dest.index, dest.byte, dest.size);
     /* Bounds check handles */
     if(src.index < 0 || src.index >= get_tagindex()) {
        dax_log(DAX_LOG_ERROR, "Source tag index %d for new mapping is out of bounds", src.index);
@@ -89,17 +97,21 @@ map_add(tag_handle src, tag_handle dest)
         dax_log(DAX_LOG_ERROR, "Destination tag is read only");
        return ERR_READONLY;
     }
-    /* Bounds check source size */
-    if( (src.byte + src.size) > tag_get_size(src.index)) {
-        dax_log(DAX_LOG_ERROR, "Size of the affected source data in the new mapping is too large");
-        return ERR_2BIG;
+    /* Check the source */
+    src_size = tag_check_handle(src);
+    if(src_size < 0) {
+        dax_log(DAX_LOG_ERROR, "The source handle of the new mapping is not valid");
+        return src_size;
     }
-    /* Bounds check destination size */
-    if( (dest.byte + dest.size) > tag_get_size(dest.index)) {
-        dax_log(DAX_LOG_ERROR, "Size of the affected destination data in the new mapping is too large");
-        return ERR_2BIG;
+    /* Check the destination */
+    dest_size = tag_check_handle(dest);
+    if(dest_size < 0) {
+        dax_log(DAX_LOG_ERROR, "The destination handle of the new mapping is not valid");
+        return dest_size;
     }
-    if( src.size > dest.size ) {
+    src.size = src_size;
+    dest.size = dest_size;
+    if(_bit_count(src) > _bit_count(dest)) {
         dax_log(DAX_LOG_ERROR, "Size of the source data in the new mapping is too large");
         return ERR_2BIG;
     }
@@ -114,8 +126,9 @@ map_add(tag_handle src, tag_handle dest)
     }
 
     new_map = _new_map(src, dest);
+    if(new_map == NULL) return ERR_ALLOC;
 
-    if(src.type == DAX_BOOL) {
+    if(src.type == DAX_BOOL || dest.type == DAX_BOOL) {
         /* This basically creates a mask to write the bits that we want.
          * We are putting the bits in mask according to the destination.
          * The data itself will have to be shifted later when we write
@@ -123,9 +136,14 @@ map_add(tag_handle src, tag_handle dest)
          */
         bit = dest.bit;
         offset = 0;
-        mask = (uint8_t *)malloc(src.size);
-        bzero(mask, src.size);
-        for(int i=0; i<src.count; i++) {
+        new_map->mask_size = (bit + _bit_count(src) - 1) / 8 + 1;
+        mask = (uint8_t *)malloc(new_map->mask_size);
+        if(mask == NULL) {
+            free(new_map);
+            return ERR_ALLOC;
+        }
+        bzero(mask, new_map->mask_size);
+        for(uint64_t i=0; i<_bit_count(src); i++) {
             mask[offset] |= (0x01 << bit);
             bit++;
             if(bit == 8) {
@@ -145,33 +163,28 @@ map_add(tag_handle src, tag_handle dest)
 
 int
 map_del(tag_index index, int id) {
-    _dax_datamap *this, *prev;
+    _dax_datamap *this, *prev = NULL;
 
     if(index < 0 || index >= get_tagindex()) {
         return ERR_ARG;
     }
     this = _db[index].mappings;
-    if(this->id == id) {
-        _db[index].mappings = this->next;
-        _free_map(this);
-        return 0;
-    } else {
+    while(this != NULL && this->id != id) {
         prev = this;
         this = this->next;
-        while(this != NULL) {
-            if(this->id == id) {  /* Found it */
-                prev->next = this->next;
-                _free_map(this);
-                return 0;
-            }
-            this = this->next;
-        }
     }
+    if(this == NULL) return ERR_NOTFOUND;
+    if(prev == NULL) {
+        _db[index].mappings = this->next;
+    } else {
+        prev->next = this->next;
+    }
+    _free_map(this);
     /* If there are no more mappings reset the attribute flag */
     if(_db[index].mappings == NULL) {
         _db[index].attr &= ~TAG_ATTR_MAPPING;
     }
-    return ERR_NOTFOUND;
+    return 0;
 }
 
 int
@@ -210,7 +223,7 @@ map_del_all(_dax_datamap *head) {
 
 int
 map_check(tag_index idx, int offset, int size) {
-    _dax_datamap *this;
+    _dax_datamap *this, *next;
     uint8_t *new_data, *srcdb;
     int srcByte;
     int srcBit;
@@ -218,12 +231,16 @@ map_check(tag_index idx, int offset, int size) {
     int destBit;
     int result;
 
+    if(size <= 0) return 0; /* Nothing was written */
     this = _db[idx].mappings;
     /* If this is the first time we've been called then it means that is is the tag that started
      * the mapping.  If we chain too many then we'll tell the user which tag started it all. */
     while(this != NULL) {
+        next = this->next; /* The map might get deleted below */
 
-        if(offset <= (this->source.byte + this->source.size - 1) && (offset + size -1 ) >= this->source.byte) {
+        /* The destination could have been made read only since the map was added */
+        if(!is_tag_readonly(this->dest.index) &&
+           offset <= (this->source.byte + this->source.size - 1) && (offset + size -1 ) >= this->source.byte) {
             srcdb = &_db[this->source.index].data[this->source.byte];
             /* Mapping Hit */
             if(this->mask != NULL) {
@@ -233,13 +250,13 @@ map_check(tag_index idx, int offset, int size) {
                 srcBit = this->source.bit;
                 destByte = 0;
                 destBit = this->dest.bit;
-                new_data = (uint8_t *)malloc(this->source.size);
+                new_data = (uint8_t *)malloc(this->mask_size);
                 if(new_data == NULL) {
                     dax_log(DAX_LOG_ERROR, "Unable to allocate memory for map mask");
                     return ERR_ALLOC;
                 }
-                bzero(new_data, this->source.size);
-                for(int n=0; n<this->source.count; n++) {
+                bzero(new_data, this->mask_size);
+                for(uint64_t n=0; n<_bit_count(this->source); n++) {
                     if(srcdb[srcByte] & (0x01 << srcBit)) {
                         new_data[destByte] |= (0x01 << destBit);
                     }
@@ -254,7 +271,7 @@ map_check(tag_index idx, int offset, int size) {
                         destByte++;
                     }
                 }
-                result = tag_mask_write(-1, this->dest.index, this->dest.byte, new_data, this->mask, this->source.size);
+                result = tag_mask_write(-1, this->dest.index, this->dest.byte, new_data, this->mask, this->mask_size);
                 /* If the destination tag has been deleted then delete this map */
                 if(result == ERR_DELETED) {
                     dax_log(DAX_LOG_DEBUG, "Destination tag has been deleted, removing map %d from tag index = %d", this->id, this->source.index);
@@ -269,7 +286,7 @@ map_check(tag_index idx, int offset, int size) {
                 }
             }
         }
-        this = this->next;
+        this = next;
     }
     return 0;
 }
diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 401497f..7b0aa49 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -783,6 +783,31 @@ _range_ok(tag_index idx, int offset, int size) {
     return offset >= 0 && size >= 0 && (int64_t)offset + size <= tag_get_size(idx);
 }
 
+/* Checks that the handle makes sense and that it is inside of an existing tag.
+ * Returns the size in bytes of the data that it represents or a negative
+ * error code. */
+int
+tag_check_handle(tag_handle h) {
+    int64_t size;
+
+    if(!_index_ok(h.index)) return ERR_ARG;
+    if(_db[h.index].data == NULL) return ERR_DELETED;
+    if(IS_QUEUE(_db[h.index].type)) { /* Queues are all or nothing */
+        size = tag_get_size(h.index);
+        if(h.byte != 0 || h.size != size) return ERR_ILLEGAL;
+        return size;
+    }
+    if(IS_QUEUE(h.type) || type_size(h.type) <= 0) return ERR_BADTYPE;
+    if(h.count == 0 || h.bit > 7 || (h.bit != 0 && h.type != DAX_BOOL)) return ERR_ARG;
+    if(h.type == DAX_BOOL) {
+        size = ((int64_t)h.bit + h.count - 1) / 8 + 1;
+    } else {
+        size = (int64_t)type_size(h.type) * h.count;
+    }
+    if(h.byte + size > tag_get_size(h.index)) return ERR_2BIG;
+    return size;
+}
+
 /* Returns true if the tag at the given index is read only */
 int
 is_tag_readonly(tag_index idx) {
diff --git a/src/server/tagbase.h b/src/server/tagbase.h
index 01712ec..d62b671 100644
--- a/src/server/tagbase.h
+++ b/src/server/tagbase.h
@@ -93,6 +93,7 @@ typedef struct dax_datamap_t {
     tag_handle source;
     tag_handle dest;
     uint8_t *mask;
+    uint32_t mask_size;  /* Size of the mask in bytes */
     struct dax_datamap_t *next;
 } _dax_datamap;
 
@@ -136,6 +137,7 @@ int is_tag_virtual(tag_index idx);
 int is_tag_queue(tag_index idx);
 int is_tag_owned(int fd, tag_index idx);
 int tag_get_size(tag_index idx);
+int tag_check_handle(tag_handle h);
 
 /* Database reading and writing functions */
 int tag_read(int fd, tag_index handle, int offset, void *data, int size);
-- 
2.43.0


From 7ef86e88bfd56e58addfd4c4443e66e527428d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:36 +0000
Subject: [PATCH 09/64] fix: check group members and indexes and write groups
 like single tags

Group members were not checked, deleting a group made the last one disappear,
bad indexes read random memory, and group writes ignored read only tags,
mappings and the bit range of BOOL members.
---
 src/server/groups.c  | 114 +++++++++++++++++++++++++++++++++++--------
 src/server/groups.h  |   2 +-
 src/server/message.c |   2 +-
 3 files changed, 97 insertions(+), 21 deletions(-)

diff --git a/src/server/groups.c b/src/server/groups.c
index f8585c6..9ef002b 100644
--- a/src/server/groups.c
+++ b/src/server/groups.c
@@ -25,6 +25,7 @@
 #include "libcommon.h"
 #include "groups.h"
 #include "tagbase.h"
+#include "virtualtag.h"
 
 static void
 _init_group(tag_group *grp) {
@@ -79,7 +80,7 @@ _group_add(dax_module *mod) {
  */
 int
 group_add(dax_module *mod, uint8_t *handles, uint8_t count) {
-    int index, datasize, offset;
+    int index, datasize, offset, size;
 
     if(count > TAG_GROUP_MAX_MEMBERS) return ERR_ARG;
     index = _group_add(mod);
@@ -97,14 +98,21 @@ group_add(dax_module *mod, uint8_t *handles, uint8_t count) {
         memcpy(&mod->tag_groups[index].members[n].size, &handles[offset+13], 4);
         memcpy(&mod->tag_groups[index].members[n].type, &handles[offset+17], 4);
 
-        datasize += mod->tag_groups[index].members[n].size;
-        if(datasize > MSG_TAG_GROUP_DATA_SIZE) {
+        size = tag_check_handle(mod->tag_groups[index].members[n]);
+        /* The client uses the size that it sent us to find it's data */
+        if(size >= 0 && size != mod->tag_groups[index].members[n].size) size = ERR_ARG;
+        if(size >= 0) {
+            datasize += size;
+            if(size > MSG_TAG_GROUP_DATA_SIZE || datasize > MSG_TAG_GROUP_DATA_SIZE) size = ERR_2BIG;
+        }
+        if(size < 0) {
             free(mod->tag_groups[index].members);
             mod->tag_groups[index].members = NULL;
-            return ERR_2BIG;
+            return size;
         }
     }
 
+    mod->tag_groups[index].size = datasize;
     mod->tag_groups[index].flags |= GRP_FLAG_NOT_EMPTY;
     mod->tag_groups[index].count = count;
     dax_log(DAX_LOG_MSG, "Group Add message from %s", mod->name);
@@ -112,15 +120,30 @@ group_add(dax_module *mod, uint8_t *handles, uint8_t count) {
 }
 
 
+/* Returns the group given by index or NULL if there isn't one there */
+static tag_group *
+_find_group(dax_module *mod, uint32_t index) {
+    if(index >= mod->groups_size) return NULL;
+    if((mod->tag_groups[index].flags & GRP_FLAG_NOT_EMPTY) == 0) return NULL;
+    return &mod->tag_groups[index];
+}
+
+/* These tell us if the data of the member doesn't line up with whole bytes */
+static inline int
+_is_bits(tag_handle *h) {
+    return h->type == DAX_BOOL && (h->bit != 0 || h->count % 8 != 0);
+}
+
 /* Deletes a single tag group from the given module */
 int
 group_del(dax_module *mod, int index) {
-    if((mod->tag_groups[index].flags & GRP_FLAG_NOT_EMPTY) == 0) return ERR_NOTFOUND;
+    if(_find_group(mod, index) == NULL) return ERR_NOTFOUND;
 
     free(mod->tag_groups[index].members);
+    mod->tag_groups[index].members = NULL;
     mod->tag_groups[index].flags = 0x00;
     mod->tag_groups[index].count = 0;
-    mod->groups_size--;
+    mod->tag_groups[index].size = 0;
     dax_log(DAX_LOG_MSG, "Group Delete message from %s", mod->name);
     return 0;
 }
@@ -129,33 +152,86 @@ group_del(dax_module *mod, int index) {
  * the data.*/
 int
 group_read(dax_module *mod, uint32_t index, uint8_t *buff, int size) {
-    int n, offset=0, result;
+    int n, i, bit, offset=0, result;
     tag_group *group;
+    tag_handle *h;
+    uint8_t temp[MSG_TAG_GROUP_DATA_SIZE];
 
-    group = &mod->tag_groups[index];
-    if((group->flags & GRP_FLAG_NOT_EMPTY) == 0) return ERR_NOTFOUND;
+    group = _find_group(mod, index);
+    if(group == NULL) return ERR_NOTFOUND;
     if(group->size > size) return ERR_ARG;
     for(n = 0;n<group->count;n++) {
-        result = tag_read(-1, group->members[n].index, group->members[n].byte, &buff[offset], group->members[n].size);
+        h = &group->members[n];
+        result = tag_read(mod->fd, h->index, h->byte, &buff[offset], h->size);
         if(result) return result;
-        offset += group->members[n].size;
+        if(_is_bits(h)) { /* The first bit of the member goes in the first bit of the data */
+            memcpy(temp, &buff[offset], h->size);
+            bzero(&buff[offset], h->size);
+            for(i = 0; i < h->count; i++) {
+                bit = h->bit + i;
+                if(temp[bit / 8] & (0x01 << (bit % 8))) {
+                    buff[offset + i / 8] |= (0x01 << (i % 8));
+                }
+            }
+        }
+        offset += h->size;
     }
     return offset;
 }
 
-/* loop through the array of members and populate buff with
- * the data.*/
+/* Check that the module would be allowed to write this member by itself */
+static int
+_check_write(dax_module *mod, tag_handle *h) {
+    dax_tag tag;
+    int result;
+
+    result = tag_get_index(h->index, &tag);
+    if(result) return result;
+    if(is_tag_readonly(h->index) && !is_tag_owned(mod->fd, h->index)) {
+        return ERR_READONLY;
+    }
+    if(tag.attr & TAG_ATTR_SPECIAL) {
+        return special_tag_write(mod->fd, h->index, h->byte, NULL, h->size);
+    }
+    return 0;
+}
+
+/* loop through the array of members and write the data in buff to
+ * each one.  We check them all first so that we either write the whole
+ * group or nothing at all. */
 int
-group_write(dax_module *mod, uint32_t index, uint8_t *buff) {
-    int n, offset=0, result;
+group_write(dax_module *mod, uint32_t index, uint8_t *buff, int size) {
+    int n, i, bit, offset=0, result;
     tag_group *group;
+    tag_handle *h;
+    uint8_t temp[MSG_TAG_GROUP_DATA_SIZE], mask[MSG_TAG_GROUP_DATA_SIZE];
 
-    group = &mod->tag_groups[index];
-    if((group->flags & GRP_FLAG_NOT_EMPTY) == 0) return ERR_NOTFOUND;
+    group = _find_group(mod, index);
+    if(group == NULL) return ERR_NOTFOUND;
+    if(group->size != size) return ERR_ARG;
     for(n = 0;n<group->count;n++) {
-        result = tag_write(-1, group->members[n].index, group->members[n].byte, &buff[offset], group->members[n].size);
+        result = _check_write(mod, &group->members[n]);
+        if(result) return result;
+    }
+    for(n = 0;n<group->count;n++) {
+        h = &group->members[n];
+        if(_is_bits(h)) {
+            bzero(temp, h->size);
+            bzero(mask, h->size);
+            for(i = 0; i < h->count; i++) {
+                bit = h->bit + i;
+                mask[bit / 8] |= (0x01 << (bit % 8));
+                if(buff[offset + i / 8] & (0x01 << (i % 8))) {
+                    temp[bit / 8] |= (0x01 << (bit % 8));
+                }
+            }
+            result = tag_mask_write(mod->fd, h->index, h->byte, temp, mask, h->size);
+        } else {
+            result = tag_write(mod->fd, h->index, h->byte, &buff[offset], h->size);
+        }
         if(result) return result;
-        offset += group->members[n].size;
+        map_check(h->index, h->byte, h->size);
+        offset += h->size;
     }
     return offset;
 }
diff --git a/src/server/groups.h b/src/server/groups.h
index f70506d..45dbe5a 100644
--- a/src/server/groups.h
+++ b/src/server/groups.h
@@ -38,7 +38,7 @@
 int group_add(dax_module *mod, uint8_t *handles, uint8_t count);
 int group_del(dax_module *mod, int index);
 int group_read(dax_module *mod, uint32_t index, uint8_t *buff, int size);
-int group_write(dax_module *mod, uint32_t index, uint8_t *buff);
+int group_write(dax_module *mod, uint32_t index, uint8_t *buff, int size);
 int groups_cleanup(dax_module *mod);
 
 #endif /* !__DAX_GROUPS_H */
diff --git a/src/server/message.c b/src/server/message.c
index b9ed390..81be29e 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -960,7 +960,7 @@ msg_group_write(dax_message *msg) {
     mod = module_find_fd(msg->fd);
     memcpy(&index, &msg->data[0], 4);
 
-    result = (mod == NULL) ? ERR_AUTH : group_write(mod, index, (uint8_t *)&msg->data[4]);
+    result = (mod == NULL) ? ERR_AUTH : group_write(mod, index, (uint8_t *)&msg->data[4], msg->size - 4);
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_WRITE, &result, sizeof(int), ERROR);
         dax_log(DAX_LOG_MSGERR, "Group Write Message from %d Returning Error %d", msg->fd, result);
-- 
2.43.0


From f110953a36139c23d16bf2e71afdebd92c492d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:39 +0000
Subject: [PATCH 10/64] fix: apply atomic operations to exactly the elements
 that were addressed

The operand was indexed with the tag's offset, the toggling operations changed
bits outside of the range, ranges ending on a byte boundary lost their last
byte, TIME was treated as 32 bits and the range was not checked in bytes.
---
 src/server/atomic.c | 83 +++++++++++++++++++++++----------------------
 1 file changed, 43 insertions(+), 40 deletions(-)

diff --git a/src/server/atomic.c b/src/server/atomic.c
index 5468192..ead66d6 100644
--- a/src/server/atomic.c
+++ b/src/server/atomic.c
@@ -38,6 +38,14 @@ _left_shift(dax_byte *dest, dax_byte *src, size_t size, uint8_t bit) {
 }
 
 
+/* The bits of the last byte that are above the range of a BOOL handle */
+inline static dax_byte
+_high_mask(tag_handle h) {
+    int bits = (h.bit + h.count) % 8;
+
+    return bits == 0 ? 0x00 : 0xFF << bits;
+}
+
 static int
 _atomic_inc(tag_handle h, void *data) {
     /* We only operate on one member at a time */
@@ -59,7 +67,6 @@ _atomic_inc(tag_handle h, void *data) {
             return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             *(dax_udint *)&_db[h.index].data[h.byte] += *(dax_udint *)data;
             return 0;
         case DAX_DINT:
@@ -70,6 +77,7 @@ _atomic_inc(tag_handle h, void *data) {
             *(dax_ulint *)&_db[h.index].data[h.byte] += *(dax_ulint *)data;
             return 0;
         case DAX_LINT:
+        case DAX_TIME:
             *(dax_lint *)&_db[h.index].data[h.byte] += *(dax_lint *)data;
             return 0;
         case DAX_REAL:
@@ -103,7 +111,6 @@ _atomic_dec(tag_handle h, void *data) {
             return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             *(dax_udint *)&_db[h.index].data[h.byte] -= *(dax_udint *)data;
             return 0;
         case DAX_DINT:
@@ -114,6 +121,7 @@ _atomic_dec(tag_handle h, void *data) {
             *(dax_ulint *)&_db[h.index].data[h.byte] -= *(dax_ulint *)data;
             return 0;
         case DAX_LINT:
+        case DAX_TIME:
             *(dax_lint *)&_db[h.index].data[h.byte] -= *(dax_lint *)data;
             return 0;
         case DAX_REAL:
@@ -166,7 +174,7 @@ _atomic_or(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         _left_shift(temp, data, h.size, h.bit);
 
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[h.size-1] &= ~hmask;
@@ -177,7 +185,7 @@ _atomic_or(tag_handle h, void *data) {
         }
     } else {
         for(n=0; n<h.size; n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] |= ((dax_byte *)data)[h.byte+n];
+            *(dax_byte *)&_db[h.index].data[h.byte+n] |= ((dax_byte *)data)[n];
         }
     }
     return 0;
@@ -194,7 +202,7 @@ _atomic_and(tag_handle h, void *data) {
         return ERR_BADTYPE;
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         _left_shift(temp, data, h.size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[h.size-1] |= hmask;
@@ -205,7 +213,7 @@ _atomic_and(tag_handle h, void *data) {
         }
     } else {
         for(n=0; n<h.size; n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] &= ((dax_byte *)data)[h.byte+n];
+            *(dax_byte *)&_db[h.index].data[h.byte+n] &= ((dax_byte *)data)[n];
         }
     }
     return 0;
@@ -224,30 +232,30 @@ _atomic_nor(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         size = h.size;
         _left_shift(temp, data, size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[size-1] &= ~hmask;
         temp[0]      &= ~lmask;
 
         /* To do the NOR with our mask we first apply the mask just like
-           with the OR.  Then XOR the middle bytes with 0xFF to toggle them
-           which makes it a NOR and then we do the same thing to the first
-           and last bytes except with the compliment of the mask.  This
-           keeps the bits that are outside of our range and then toggles
-           the ones that are inside the range. */
+           with the OR.  Then XOR all the bytes with 0xFF to toggle them
+           which makes it a NOR and then we toggle the bits of the first
+           and last bytes that are in the mask once more.  This keeps the
+           bits that are outside of our range and toggles the ones that are
+           inside the range. */
         for(n=0;n< size;n++) {
             ((dax_byte *)_db[h.index].data)[h.byte+n] |= temp[n];
         }
-        for(n=1;n<size-1;n++) {
+        for(n=0;n<size;n++) {
             ((dax_byte *)_db[h.index].data)[h.byte+n] ^= 0xFF;
         }
-        ((dax_byte *)_db[h.index].data)[size-1] ^= ~hmask;
-        ((dax_byte *)_db[h.index].data)[0]      ^= ~lmask;
+        ((dax_byte *)_db[h.index].data)[h.byte+size-1] ^= hmask;
+        ((dax_byte *)_db[h.index].data)[h.byte]        ^= lmask;
 
     } else {
         for(n=0;n<h.size;n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] | ((dax_byte *)data)[h.byte+n]);
+            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] | ((dax_byte *)data)[n]);
         }
     }
     return 0;
@@ -266,7 +274,7 @@ _atomic_nand(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         size = h.size;
         _left_shift(temp, data, size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[size-1] |= hmask;
@@ -275,14 +283,14 @@ _atomic_nand(tag_handle h, void *data) {
         for(n=0;n< size;n++) {
             ((dax_byte *)_db[h.index].data)[h.byte+n] &= temp[n];
         }
-        for(n=1;n<size-1;n++) {
+        for(n=0;n<size;n++) {
             ((dax_byte *)_db[h.index].data)[h.byte+n] ^= 0xFF;
         }
-        ((dax_byte *)_db[h.index].data)[size-1] ^= ~hmask;
-        ((dax_byte *)_db[h.index].data)[0]      ^= ~lmask;
+        ((dax_byte *)_db[h.index].data)[h.byte+size-1] ^= hmask;
+        ((dax_byte *)_db[h.index].data)[h.byte]        ^= lmask;
     } else {
         for(n=0;n<h.size;n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] & ((dax_byte *)data)[h.byte+n]);
+            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] & ((dax_byte *)data)[n]);
         }
     }
     return 0;
@@ -300,7 +308,7 @@ _atomic_xor(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         _left_shift(temp, data, h.size, h.bit);
 
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[h.size-1] &= ~hmask;
@@ -311,7 +319,7 @@ _atomic_xor(tag_handle h, void *data) {
         }
     } else {
         for(n=0; n<h.size; n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] ^= ((dax_byte *)data)[h.byte+n];
+            *(dax_byte *)&_db[h.index].data[h.byte+n] ^= ((dax_byte *)data)[n];
         }
     }
     return 0;
@@ -329,7 +337,7 @@ _atomic_xnor(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         size = h.size;
         _left_shift(temp, data, size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[size-1] &= ~hmask;
@@ -338,15 +346,15 @@ _atomic_xnor(tag_handle h, void *data) {
         for(n=0;n< size;n++) {
             ((dax_byte *)_db[h.index].data)[h.byte+n] ^= temp[n];
         }
-        for(n=1;n<size-1;n++) {
+        for(n=0;n<size;n++) {
             ((dax_byte *)_db[h.index].data)[h.byte+n] ^= 0xFF;
         }
-        ((dax_byte *)_db[h.index].data)[size-1] ^= ~hmask;
-        ((dax_byte *)_db[h.index].data)[0]      ^= ~lmask;
+        ((dax_byte *)_db[h.index].data)[h.byte+size-1] ^= hmask;
+        ((dax_byte *)_db[h.index].data)[h.byte]        ^= lmask;
 
     } else {
         for(n=0;n<h.size;n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] ^ ((dax_byte *)data)[h.byte+n]);
+            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] ^ ((dax_byte *)data)[n]);
         }
     }
     return 0;
@@ -360,25 +368,20 @@ atomic_op(tag_handle h, void *data, uint16_t op) {
     if(IS_CUSTOM(h.type)) {
         return ERR_BADTYPE;
     }
-    /* Make sure we are a valid tag index*/
-    if(h.index < 0 || h.index >= get_tagindex()) {
-        return ERR_ARG;
+    /* Make sure that the handle is inside of a valid tag and that we were given
+       the right amount of data */
+    result = tag_check_handle(h);
+    if(result < 0) {
+        return result;
     }
-    /* Bounds Check Size - we can use the TYPESIZE macro here because we have
-       already excluded CDTs */
-    if((h.byte + h.size) > (_db[h.index].count * TYPESIZE(_db[h.index].type))) {
-        return ERR_2BIG;
+    if(result != h.size) {
+        return ERR_ARG;
     }
     /* Since we directly manipulate the _db here we can't deal with virtual tags or
        special tags.*/
     if(_db[h.index].attr & (TAG_ATTR_VIRTUAL | TAG_ATTR_SPECIAL)) {
         return ERR_READONLY;
     }
-    /* If the index is within range but the data area is a NULL pointer then the
-       tag has been deleted */
-    if(_db[h.index].data == NULL) {
-        return ERR_DELETED;
-    }
     switch(op) {
         case ATOMIC_OP_INC:
             if(h.type == DAX_BOOL) return ERR_BADTYPE;
-- 
2.43.0


From ebe8298ff9295cb13201693cd3bc3b0f1fdb70e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:43 +0000
Subject: [PATCH 11/64] fix: keep overrides inside of the tag and their
 counters right

Overrides of BOOL tags and at an offset overran or left their buffers
uninitialized, adding one removed others in the same byte, removing the last
active one did not decrement the active count, and reading them ignored the
offset and crashed when none was installed.
---
 src/server/tagbase.c | 80 ++++++++++++++++++++++++++------------------
 1 file changed, 47 insertions(+), 33 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 7b0aa49..7485e0e 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -1324,34 +1324,50 @@ cdt_add_member(datatype *cdt, char *name, tag_type type, unsigned int count)
     return 0;
 }
 
-int
-override_add(tag_index idx, int offset, void *data, void *mask, int size) {
-    int tag_size;
-
-    if(idx < 0 || idx >= _tagnextindex) {
+/* Checks that we can have an override on the given part of the tag */
+static int
+_override_check(tag_index idx, int offset, int size) {
+    if(!_index_ok(idx)) {
         return ERR_ARG;
     }
     if(_db[idx].data == NULL) {
         return ERR_DELETED;
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
+    /* There is no data to override in a virtual tag */
+    if(is_tag_virtual(idx)) {
+        return ERR_ILLEGAL;
+    }
+    if(!_range_ok(idx, offset, size)) {
+        return ERR_2BIG;
+    }
+    return 0;
+}
+
+int
+override_add(tag_index idx, int offset, void *data, void *mask, int size) {
+    int n, result;
+    uint8_t m;
+
+    result = _override_check(idx, offset, size);
+    if(result) return result;
 
     if(_db[idx].odata == NULL) {
-        _db[idx].odata = malloc(tag_size);
+        _db[idx].odata = xmalloc(tag_get_size(idx));
         if(_db[idx].odata == NULL) return ERR_ALLOC;
-        _db[idx].omask = malloc(tag_size);
+        _db[idx].omask = xmalloc(tag_get_size(idx));
         if(_db[idx].omask == NULL) {
             xfree(_db[idx].odata);
             _db[idx].odata = NULL;
 
             return ERR_ALLOC;
         }
-        bzero(_db[idx].odata, size);
-        bzero(_db[idx].omask, size);
     }
-    if((offset + size) > tag_size) return ERR_2BIG;
-    memcpy(&_db[idx].odata[offset], data, size);
-    memcpy(&_db[idx].omask[offset], mask, size);
+    /* Other bits that have already been overridden stay that way */
+    for(n=0;n<size;n++) {
+        m = ((uint8_t *)mask)[n];
+        _db[idx].odata[n+offset] = (_db[idx].odata[n+offset] & ~m) | (((uint8_t *)data)[n] & m);
+        _db[idx].omask[n+offset] |= m;
+    }
 
     /* If the flag for this tag is not already set then increment the counter */
     if(! (_db[idx].attr & TAG_ATTR_OVERRIDE )) {
@@ -1368,16 +1384,10 @@ override_add(tag_index idx, int offset, void *data, void *mask, int size) {
 
 int
 override_del(tag_index idx, int offset, void *mask, int size) {
-    int tag_size;
-    int n;
+    int n, result, tag_size;
 
-    if(idx < 0 || idx >= _tagnextindex) {
-        return ERR_ARG;
-    }
-    if(_db[idx].data == NULL) {
-        return ERR_DELETED;
-    }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
+    result = _override_check(idx, offset, size);
+    if(result) return result;
     if(_db[idx].odata == NULL) {
         return ERR_GENERIC;
     }
@@ -1385,10 +1395,16 @@ override_del(tag_index idx, int offset, void *mask, int size) {
         _db[idx].omask[n+offset] &= ~((uint8_t *)mask)[n];
         _db[idx].odata[n+offset] &= ~((uint8_t *)mask)[n];
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
+    tag_size = tag_get_size(idx);
     for(n=0;n<tag_size;n++) {
         if(_db[idx].omask[n])  return 0;
     }
+    if(_db[idx].attr & TAG_ATTR_OVR_SET) {
+        _ovrdset--;
+        if(_db[INDEX_OVRD_SET].data != NULL) {
+            tag_write(-1, INDEX_OVRD_SET, 0, &_ovrdset, sizeof(tag_index));
+        }
+    }
     /* Remove both of the flags that indicate we have an override installed or set */
     _db[idx].attr &= ~(TAG_ATTR_OVERRIDE | TAG_ATTR_OVR_SET);
     /* If we get here then we've deleted the last of the overrides for this
@@ -1408,18 +1424,16 @@ override_del(tag_index idx, int offset, void *mask, int size) {
 
 int
 override_get(tag_index idx, int offset, int size, void *data, void *mask) {
-    int tag_size;
+    int result;
 
-    if(idx < 0 || idx >= _tagnextindex) {
-        return ERR_ARG;
-    }
-    if(_db[idx].data == NULL) {
-        return ERR_DELETED;
+    result = _override_check(idx, offset, size);
+    if(result) return result;
+    memcpy(data, &_db[idx].data[offset], size);
+    if(_db[idx].omask == NULL) { /* No overrides in this tag */
+        bzero(mask, size);
+    } else {
+        memcpy(mask, &_db[idx].omask[offset], size);
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
-    if((offset + size) > tag_size) return ERR_2BIG;
-    memcpy(data, _db[idx].data, size);
-    memcpy(mask, _db[idx].omask, size);
     return 0;
 }
 
-- 
2.43.0


From 285392f4a6a1b84554c2524297213c9133284f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:51 +0000
Subject: [PATCH 12/64] fix: refuse compound datatypes that cannot work

Definitions without a name or members, with bad counts, with the name of a
base type or that are too big crashed the server or created types that could
not be used, and repeating a definition returned an uninitialized error.
---
 src/server/message.c |  8 +++++++-
 src/server/tagbase.c | 49 ++++++++++++++++++++++++++++++++------------
 2 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/src/server/message.c b/src/server/message.c
index 81be29e..874278f 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -738,7 +738,13 @@ msg_cdt_create(dax_message *msg)
     tag_type type;
 
     msg->data[MSG_DATA_SIZE-1] = '\0'; /* Just to be safe */
-    type = cdt_create(msg->data, &result);
+    if(strlen(msg->data) + 1 > MSG_DATA_SIZE - 4) {
+        /* We wouldn't be able to send it back when somebody asks for it */
+        type = 0;
+        result = ERR_2BIG;
+    } else {
+        type = cdt_create(msg->data, &result);
+    }
     dax_log(DAX_LOG_MSG, "Create CDT message name = '%s' type = 0x%X", msg->data, type);
 
     if(result < 0) { /* Send Error */
diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 7485e0e..84b9600 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -995,6 +995,7 @@ static int
 cdt_append(datatype *cdt, char *str)
 {
     int retval, count;
+    long lcount;
     cdt_member *this, *new;
     char *name, *typestr, *countstr, *last;
     tag_type type;
@@ -1006,7 +1007,9 @@ cdt_append(datatype *cdt, char *str)
     if(typestr == NULL) return ERR_ARG;
     countstr = strtok_r(NULL, ",", &last);
     if(countstr == NULL) return ERR_ARG;
-    count = strtol(countstr, NULL, 0);
+    lcount = strtol(countstr, NULL, 0);
+    if(lcount <= 0 || lcount > INT_MAX) return ERR_ARG;
+    count = lcount;
 
     /* Check that the name is okay */
     if( (retval = _validate_name(name)) ) {
@@ -1086,26 +1089,31 @@ cdt_create(char *str, int *error) {
      * except for printing the name so this works out okay. */
     name = strtok_r(tmp, ":", &last);
     /* Check that the name is okay */
-    if( (result = _validate_name(name)) ) {
+    result = (name == NULL) ? ERR_ARG : _validate_name(name);
+    if(result) {
         if(error != NULL) *error = result;
         free(tmp);
         return 0;
     }
     if((type = cdt_get_type(name))) {
-        serialize_datatype(type, &serial);
-        if(strcmp(serial, str)) { /* This means the two CDT's are not equal */
+        serial = NULL;
+        /* This fails if it is the name of one of the base types */
+        result = serialize_datatype(type, &serial);
+        if(result < 0 || strcmp(serial, str)) { /* This means the two CDT's are not equal */
             if(error != NULL) *error = ERR_DUPL;
-            free(tmp);
-            return 0;
+            type = 0;
         } else { /* If it's the same then just return it */
-            free(tmp);
-            return type;
+            if(error != NULL) *error = 0;
         }
+        free(serial);
+        free(tmp);
+        return type;
     }
     /* Initialize the new datatype */
     cdt.name = strdup(name);
     if(cdt.name == NULL) {
         if(error != NULL) *error = ERR_ALLOC;
+        free(tmp);
         return 0;
     }
     cdt.members = NULL;
@@ -1120,6 +1128,11 @@ cdt_create(char *str, int *error) {
         }
     }
     free(tmp);
+    if(cdt.members == NULL) { /* It has to have something in it */
+        _cdt_destroy(&cdt);
+        if(error != NULL) *error = ERR_ARG;
+        return 0;
+    }
 
     /* Do we have space in the array */
     if(_datatype_index == _datatype_size) {
@@ -1130,6 +1143,7 @@ cdt_create(char *str, int *error) {
             _datatypes = new_datatype;
             _datatype_size += DAX_DATATYPE_SIZE;
         } else {
+            _cdt_destroy(&cdt);
             if(error) *error = ERR_ALLOC;
             return 0;
         }
@@ -1142,6 +1156,14 @@ cdt_create(char *str, int *error) {
     _datatypes[_datatype_index].flags = 0;
     _datatype_index++;
 
+    result = type_size(CDT_TO_TYPE((_datatype_index - 1)));
+    if(result < 0) { /* It's too big */
+        _datatype_index--;
+        _cdt_destroy(&cdt);
+        if(error) *error = result;
+        return 0;
+    }
+
     if(error) *error = 0;
     //--printf("create_cdt() - Created datatype %s\n", cdt.name);
     return CDT_TO_TYPE((_datatype_index - 1));
@@ -1256,7 +1278,7 @@ cdt_get_entry(tag_type type) {
     int index;
 
     index = CDT_TO_INDEX(type);
-    if(IS_CUSTOM(type) && index > 0 && index < _datatype_size) {
+    if(IS_CUSTOM(type) && index >= 0 && index < _datatype_index) {
         return &_datatypes[index];
     } else {
         return NULL;
@@ -1482,7 +1504,7 @@ serialize_datatype(tag_type type, char **str)
 
     cdt_index = CDT_TO_INDEX(type);
 
-    if(cdt_index < 0 || cdt_index >= _datatype_index) {
+    if(!IS_CUSTOM(type) || cdt_index < 0 || cdt_index >= _datatype_index) {
         return ERR_ARG;
     }
 
@@ -1528,7 +1550,7 @@ int
 type_size(tag_type type)
 {
     int size = 0, result;
-    unsigned int pos = 0; /* Bit position within the data area */
+    uint64_t pos = 0; /* Bit position within the data area */
     cdt_member *this;
 
     if( (result = _checktype(type)) ) {
@@ -1551,12 +1573,13 @@ type_size(tag_type type)
                 if(IS_CUSTOM(this->type)) {
                     result = type_size(this->type);
                     assert(result > 0); /* The types within other types should be okay */
-                    pos += (result * this->count) * 8;
+                    pos += ((uint64_t)result * this->count) * 8;
                 } else {
                     /* This gets the size in bits */
-                    pos += TYPESIZE(this->type) * this->count;
+                    pos += (uint64_t)TYPESIZE(this->type) * this->count;
                 }
             }
+            if(pos / 8 >= INT_MAX) return ERR_2BIG;
             this = this->next;
         }
         if(pos) {
-- 
2.43.0


From 4ec3e783be841f77dec3405603d699e0ad49e2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:29 +0000
Subject: [PATCH 13/64] fix: give every module its own status tag and only
 remove that one

Modules that are excluded from having a tag deleted tag zero when they left, a
duplicate name that was already taken made two modules share one tag, invalid
names wrote outside of the database, and the tags owned by a connection that
had not registered stayed behind.
---
 src/server/module.c | 47 +++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/server/module.c b/src/server/module.c
index c8bc7a9..21ec4d7 100644
--- a/src/server/module.c
+++ b/src/server/module.c
@@ -230,7 +230,7 @@ module_register(char *name, uint32_t timeout, int fd)
 {
     dax_module *mod, *test;
     char tagname[DAX_TAGNAME_SIZE + 1];
-    int result, x;
+    int result, x, len;
     dax_time starttime;
 
     bzero(tagname, DAX_TAGNAME_SIZE + 1);
@@ -254,15 +254,17 @@ module_register(char *name, uint32_t timeout, int fd)
             warning generated */
             strcpy(tagname, "_m");
             strncat(tagname, name, DAX_TAGNAME_SIZE - 2);
-            result = tag_get_name(tagname, NULL);
-            if(result==0) {
+            len = strlen(tagname);
+            /* Keep trying until we find one that isn't being used */
+            while(tag_get_name(tagname, NULL) == 0) {
                 if(_mod_uuid < 1000) {
-                    x = MIN(strlen(tagname), DAX_TAGNAME_SIZE -3);
+                    x = MIN(len, DAX_TAGNAME_SIZE -3);
                     sprintf(&tagname[x], "%03d", _mod_uuid++);
                 } else {
-                    x = MIN(strlen(tagname), DAX_TAGNAME_SIZE -5);
+                    x = MIN(len, DAX_TAGNAME_SIZE -5);
                     sprintf(&tagname[x], "%05d", _mod_uuid++);
                 }
+                if(_mod_uuid > 99999) _mod_uuid = 0;
                 dax_log(DAX_LOG_WARN, "Duplicate module name.  Module tag being modified - %s", tagname);
             }
             result = tag_add(-1, tagname, cdt_get_type("_module"), 1, 0);
@@ -270,14 +272,14 @@ module_register(char *name, uint32_t timeout, int fd)
                 dax_log(DAX_LOG_ERROR, "Unable to add module tag- %s", tagname);
             } else {
                 mod->tagindex = result;
+                starttime = xtime();
+                tag_write(-1, result, 0, &starttime, sizeof(dax_time));
+                tag_write(-1, result, MOD_ID_OFFSET, &fd, sizeof(int));
+                /* We wait until after we have written what we want to set the special flag.
+                From now on we'll let the special functions handle the tag */
+                tag_set_attribute(result, TAG_ATTR_SPECIAL);
+                tag_write(-1, INDEX_LASTMODULE, 0, tagname, DAX_TAGNAME_SIZE);
             }
-            starttime = xtime();
-            tag_write(-1, result, 0, &starttime, sizeof(dax_time));
-            tag_write(-1, result, MOD_ID_OFFSET, &fd, sizeof(int));
-            /* We wait until after we have written what we want to set the special flag.
-            From now on we'll let the special functions handle the tag */
-            tag_set_attribute(result, TAG_ATTR_SPECIAL);
-            tag_write(-1, INDEX_LASTMODULE, 0, tagname, DAX_TAGNAME_SIZE);
         }
     } else {
         dax_log(DAX_LOG_ERROR, "Major problem registering module - %s:%d", name, fd);
@@ -300,18 +302,21 @@ module_unregister(int fd)
         dax_log(DAX_LOG_MAJOR,"Removing module '%s' at file descriptor %d", mod->name, fd);
         events_cleanup(mod);
         groups_cleanup(mod);
-        /* This deletes any tag that is owned by this module. */
-        tag_count = get_tagindex();
-        for(tag_index n=0;n<tag_count;n++) {
-            if(is_tag_owned(fd, n)) {
-                tag_del(n);
-            }
-        }
-        tag_del(mod->tagindex);
-        module_del(mod);
     } else {
         dax_log(DAX_LOG_ERROR, "module_unregister() - Module File Descriptor %d Not Found", fd);
     }
+    /* This deletes any tag that is owned by this module. */
+    tag_count = get_tagindex();
+    for(tag_index n=0;n<tag_count;n++) {
+        if(is_tag_owned(fd, n)) {
+            tag_del(n);
+        }
+    }
+    if(mod != NULL) {
+        /* Zero means that we didn't create a tag for this module */
+        if(mod->tagindex > 0) tag_del(mod->tagindex);
+        module_del(mod);
+    }
 }
 
 
-- 
2.43.0


From ad2bdd14751da741af940f10600e94b9700c8d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:37 +0000
Subject: [PATCH 14/64] fix: keep retained tags and their data over any number
 of restarts

---
 src/server/retain.c  | 86 +++++++++++++++++++++++++-------------------
 src/server/tagbase.c |  8 +++--
 2 files changed, 55 insertions(+), 39 deletions(-)

diff --git a/src/server/retain.c b/src/server/retain.c
index 9175c1d..af7c759 100644
--- a/src/server/retain.c
+++ b/src/server/retain.c
@@ -74,12 +74,12 @@ _create_tags(void) {
     char *name;
     char *type;
     const void *data;
-    int count, size;
+    int id, count, size;
     tag_index tag_index;
 
 
     // CREATE ALL THE DATATYPES FIRST
-    result = sqlite3_prepare_v2(_sql, "SELECT name,type,count,data FROM tags;", -1, &stmt, NULL);
+    result = sqlite3_prepare_v2(_sql, "SELECT id,name,type,count,data FROM tags ORDER BY id;", -1, &stmt, NULL);
     if(result != SQLITE_OK) {
         /* Most errors are because we have a new file */
         dax_log(DAX_LOG_ERROR, "Unable to compile SQL statement to create tags");
@@ -87,18 +87,24 @@ _create_tags(void) {
         return result;
     }
     while((result = sqlite3_step(stmt)) == SQLITE_ROW) {
-        name = (char *)sqlite3_column_text(stmt, 0);
-        type = (char *)sqlite3_column_text(stmt, 1);
-        count = sqlite3_column_int(stmt, 2);
-        data =  sqlite3_column_blob(stmt, 3);
-        size =  sqlite3_column_bytes(stmt, 3);
+        id = sqlite3_column_int(stmt, 0);
+        name = (char *)sqlite3_column_text(stmt, 1);
+        type = (char *)sqlite3_column_text(stmt, 2);
+        count = sqlite3_column_int(stmt, 3);
+        data =  sqlite3_column_blob(stmt, 4);
+        size =  sqlite3_column_bytes(stmt, 4);
 
         tag_index = tag_add(-1, name, cdt_get_type(type), count, 0);
 
         if(tag_index < 0) {
             dax_log(DAX_LOG_ERROR, "Retained tag not created properly");
         } else {
-            memcpy(_db[tag_index].data, data, MIN(size, tag_get_size(tag_index)));
+            if(data != NULL) {
+                memcpy(_db[tag_index].data, data, MIN(size, tag_get_size(tag_index)));
+            }
+            /* The tag stays retained without being added again */
+            _db[tag_index].attr |= TAG_ATTR_RETAIN;
+            _db[tag_index].ret_file_pointer = id;
         }
     }
     if(result != SQLITE_DONE) {
@@ -136,7 +142,6 @@ _create_database_tables(void) {
 static int
 _init(char *filename) {
     int result;
-    char *errmsg;
 
     dax_log(DAX_LOG_DEBUG, "Setting up SQLite Tag Retention - %s", filename);
     result = sqlite3_open(filename, &_sql);
@@ -150,14 +155,8 @@ _init(char *filename) {
        These may fail if the file doesn't exist but that's okay */
     result = _create_types(); /* Creates the types that are stored in the data base */
     result = _create_tags(); /* Creates the tags that are in the data base */
-    result = sqlite3_exec(_sql, "DROP TABLE IF EXISTS tags;", NULL, 0, &errmsg);
-    if(result != SQLITE_OK) {
-        DF("unable to drop table 'tags' - %s", errmsg);
-    }
-    result = sqlite3_exec(_sql, "DROP TABLE IF EXISTS types;", NULL, 0, &errmsg);
-    if(result != SQLITE_OK) {
-        DF("unable to drop table 'types' - %s", errmsg);
-    }
+    /* The tables are kept so that the data is still there if we stop before
+       anything is written again */
     result = _create_database_tables();
     result = sqlite3_prepare_v2(_sql, "UPDATE tags SET data = ?1 WHERE id = ?2;", -1, &update_stmt, NULL);
     if(result) {
@@ -180,16 +179,15 @@ _add_type(tag_type type) {
     cdt_member *next;
     char *type_str;
     sqlite3_stmt *stmt;
-    int index;
     int result;
-    char query[256];
 
     dt = cdt_get_entry(type);
-    index = CDT_TO_INDEX(type);
 
     if(dt == NULL) {
         dax_log(DAX_LOG_ERROR, "Bad type passed");
+        return ERR_ARG;
     }
+    if(_sql == NULL) return ERR_FILE_CLOSED;
     /* Loop through all the members and recursively add any
        compound data types that we find */
     next = dt->members;
@@ -200,33 +198,34 @@ _add_type(tag_type type) {
         next = next->next;
     }
     /* Turn the type into a string that we can use to reload it later */
-    serialize_datatype(type, &type_str);
-    if(_sql == NULL) return ERR_FILE_CLOSED;
+    result = serialize_datatype(type, &type_str);
+    if(result < 0) return result;
 
-    snprintf(query, 256, "INSERT INTO main.types(id,name,definition) VALUES (%d,'%s',?);",index, dt->name);
-
-    result = sqlite3_prepare_v2(_sql, query, -1, &stmt , NULL);
+    result = sqlite3_prepare_v2(_sql, "INSERT OR IGNORE INTO main.types(name,definition) VALUES (?1,?2);", -1, &stmt , NULL);
     if(result != SQLITE_OK) {
         dax_log(DAX_LOG_ERROR, "Unable to create tag in retention ");
+        free(type_str);
         return result;
     }
-    sqlite3_bind_text(stmt, 1, type_str, -1, NULL);
+    sqlite3_bind_text(stmt, 1, dt->name, -1, NULL);
+    sqlite3_bind_text(stmt, 2, type_str, -1, NULL);
     result = sqlite3_step(stmt);
+    sqlite3_finalize(stmt);
+    free(type_str);
     if(result != SQLITE_DONE) {
         dax_log(DAX_LOG_ERROR, "Problem inserting tag");
         return -1;
     }
-    sqlite3_finalize(stmt);
-
     return 0;
 }
 
+/* Stores the tag with the data that it has now.  If the tag is already stored
+   then it is replaced */
 int
 ret_add_tag(int index) {
     sqlite3_stmt *stmt;
     int id;
     int result;
-    char query[256];
 
     dax_log(DAX_LOG_DEBUG, "Adding Retained Tag at index %d", index);
     /* TODO: Implement retaining custom data type tags */
@@ -234,15 +233,17 @@ ret_add_tag(int index) {
         _add_type(_db[index].type);
     }
     if(_sql == NULL) return ERR_FILE_CLOSED;
-    snprintf(query, 256, "INSERT INTO main.tags(name,type,count,data) VALUES ('%s','%s',%d,NULL);",
-                         _db[index].name, cdt_get_name(_db[index].type), _db[index].count);
-
-    result = sqlite3_prepare_v2(_sql, query, -1, &stmt , NULL);
+    result = sqlite3_prepare_v2(_sql, "INSERT OR REPLACE INTO main.tags(name,type,count,data) VALUES (?1,?2,?3,?4);", -1, &stmt , NULL);
     if(result != SQLITE_OK) {
         dax_log(DAX_LOG_ERROR, "Unable to create tag in retention ");
         return result;
     }
+    sqlite3_bind_text(stmt, 1, _db[index].name, -1, NULL);
+    sqlite3_bind_text(stmt, 2, cdt_get_name(_db[index].type), -1, NULL);
+    sqlite3_bind_int(stmt, 3, _db[index].count);
+    sqlite3_bind_blob(stmt, 4, _db[index].data, tag_get_size(index), NULL);
     result = sqlite3_step(stmt);
+    sqlite3_finalize(stmt);
     if(result == SQLITE_DONE) {
         /* This might be a race condition if we ever multi thread the server */
         id = sqlite3_last_insert_rowid(_sql);
@@ -251,15 +252,28 @@ ret_add_tag(int index) {
         dax_log(DAX_LOG_ERROR, "Problem inserting tag");
         return -1;
     }
-    sqlite3_finalize(stmt);
     return 0;
 }
 
 int
 ret_del_tag(int index) {
+    sqlite3_stmt *stmt;
+    int result;
 
     dax_log(DAX_LOG_DEBUG, "Deleting Retained Tag at index %d", index);
-
+    if(_sql == NULL) return ERR_FILE_CLOSED;
+    result = sqlite3_prepare_v2(_sql, "DELETE FROM main.tags WHERE id = ?1;", -1, &stmt , NULL);
+    if(result != SQLITE_OK) {
+        dax_log(DAX_LOG_ERROR, "Unable to delete tag from retention");
+        return result;
+    }
+    sqlite3_bind_int(stmt, 1, _db[index].ret_file_pointer);
+    result = sqlite3_step(stmt);
+    sqlite3_finalize(stmt);
+    if(result != SQLITE_DONE) {
+        dax_log(DAX_LOG_ERROR, "Problem deleting tag");
+        return -1;
+    }
     return 0;
 }
 
@@ -267,7 +281,7 @@ int
 ret_tag_write(int index) {
     int result;
 
-    result = sqlite3_bind_blob(update_stmt, 1, _db[index].data, type_size(_db[index].type) * _db[index].count, NULL);
+    result = sqlite3_bind_blob(update_stmt, 1, _db[index].data, tag_get_size(index), NULL);
     if(result) {
         DF("Problem with bind_blob %d", result);
     }
diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 84b9600..c98b061 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -450,9 +450,11 @@ static void
 _set_attribute(int fd, tag_index idx, uint32_t attr) {
     /* We only let the Tag Retention attribute to be set at this point */
     if(attr & TAG_ATTR_RETAIN) {
-        /* TODO: add tag retention */;
-        ret_add_tag(idx);
-        _db[idx].attr |= TAG_ATTR_RETAIN;
+        /* There is nothing to retain in virtual tags and queues */
+        if(!(_db[idx].attr & (TAG_ATTR_RETAIN | TAG_ATTR_VIRTUAL)) && !IS_QUEUE(_db[idx].type)) {
+            ret_add_tag(idx);
+            _db[idx].attr |= TAG_ATTR_RETAIN;
+        }
     } else {
         /* The module that asks for it is the one that owns the tag */
         if(attr & TAG_ATTR_OWNED) _db[idx].fd = fd;
-- 
2.43.0


From c0893cbb7ad9629a99037d8350185f31126d474c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:13 +0000
Subject: [PATCH 15/64] fix: don't let clients that stop reading or too many
 connections stop the server

---
 src/server/buffer.c  |  4 +++-
 src/server/events.c  |  3 +++
 src/server/message.c | 11 +++++++++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/server/buffer.c b/src/server/buffer.c
index b82b7f0..dbff16b 100644
--- a/src/server/buffer.c
+++ b/src/server/buffer.c
@@ -122,7 +122,9 @@ find_buff_slot(int fd)
         result = firstfree;
     } else {
         result = _new_buffnode();
-        if(result != NULL) {
+        if(result != NULL && _buffer == NULL) {
+            _buffer = result;
+        } else if(result != NULL) {
             node = _buffer;
             /* double linked list would eliminate this ??? */
             while(node->next != NULL) node = node->next;
diff --git a/src/server/events.c b/src/server/events.c
index ca455ef..88ca58b 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -23,6 +23,7 @@
 #include "func.h"
 #include <ctype.h>
 #include <assert.h>
+#include <sys/socket.h>
 
 pthread_mutex_t _event_lock;
 
@@ -62,6 +63,8 @@ _send_event(tag_index idx, _dax_event *event)
     result = xwrite(event->notify->fd, buff, msgsize);
     if(result < 0) {
         dax_log(DAX_LOG_ERROR, "_send_event: %s", strerror(errno));
+        /* Part of the message may be gone so this connection is of no use */
+        shutdown(event->notify->fd, SHUT_RDWR);
         return ERR_MSG_SEND;
     }
     return 0;
diff --git a/src/server/message.c b/src/server/message.c
index 874278f..3f5c15d 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -37,6 +37,9 @@
 #include <sys/un.h>
 #include <string.h>
 
+/* How long we'll wait for a client to make room for a message, in seconds */
+#define MSG_SEND_TIMEOUT 2
+
 #define ASYNC 0
 #define RESPONSE 1
 #define ERROR 2
@@ -127,6 +130,8 @@ _message_send(int fd, int command, void *payload, size_t size, int response)
     result = xwrite(fd, buff, size + MSG_HDR_SIZE);
     if(result < 0) {
         dax_log(DAX_LOG_ERROR, "_message_send: %s", strerror(errno));
+        /* Part of the message may be gone so this connection is of no use */
+        shutdown(fd, SHUT_RDWR);
         return ERR_MSG_SEND;
     }
     return 0;
@@ -302,6 +307,7 @@ msg_receive(void)
 {
     fd_set tmpset;
     struct timeval tm;
+    struct timeval sndtimeo = {.tv_sec = MSG_SEND_TIMEOUT, .tv_usec = 0};
     struct sockaddr_un addr;
     int result, fd, n;
     socklen_t len = 0;
@@ -331,7 +337,12 @@ msg_receive(void)
                     if(fd < 0) {
                         /* TODO: Need to handle these errors */
                         dax_log(DAX_LOG_ERROR, "Error Accepting socket: %s", strerror(errno));
+                    } else if(fd >= FD_SETSIZE) {
+                        dax_log(DAX_LOG_ERROR, "Too many connections");
+                        close(fd);
                     } else {
+                        /* A client that doesn't read can't be allowed to hold up the others */
+                        setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &sndtimeo, sizeof(sndtimeo));
                         dax_log(DAX_LOG_COMM, "Accepted socket on fd %d", n);
                         msg_add_fd(fd);
                     }
-- 
2.43.0


From 97f14ff59285b992a0b6f4334856d38d1b482017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:44 +0000
Subject: [PATCH 16/64] fix: client library: bounded sends and receives,
 joinable connection thread

The connection thread read replies into fixed buffers by a size that came
from the wire, sent with single send() calls, and could be left running
(or be waited for for ever) when the connection was lost or closed.
---
 src/lib/libdata.c |  22 +--
 src/lib/libdax.h  |   6 +-
 src/lib/libinit.c |  13 +-
 src/lib/libmsg.c  | 349 ++++++++++++++++++++++++++++++----------------
 4 files changed, 257 insertions(+), 133 deletions(-)

diff --git a/src/lib/libdata.c b/src/lib/libdata.c
index 3d3e7b9..2e6c972 100644
--- a/src/lib/libdata.c
+++ b/src/lib/libdata.c
@@ -42,20 +42,20 @@ init_tag_cache(dax_state *ds)
     return 0;
 }
 
-static void
-_free_node(dax_state *ds, tag_cnode *this) {
-    if(this->next != ds->cache_head) {
-        _free_node(ds, this->next);
-    }
-    free(this);
-}
-
 void
 free_tag_cache(dax_state *ds) {
-	if(ds->cache_head != NULL) {
-        _free_node(ds, ds->cache_head);
+    tag_cnode *this, *next;
+
+    if(ds->cache_head != NULL) {
+        this = ds->cache_head;
+        do {
+            next = this->next;
+            free(this);
+            this = next;
+        } while(this != ds->cache_head);
         ds->cache_head = NULL;
-	}
+    }
+    ds->cache_count = 0;
 }
 
 
diff --git a/src/lib/libdax.h b/src/lib/libdax.h
index 4061973..b94d855 100644
--- a/src/lib/libdax.h
+++ b/src/lib/libdax.h
@@ -117,7 +117,8 @@ struct dax_state {
     unsigned int datatype_size;
     pthread_mutex_t lock;
     pthread_t connection_thread;
-    pthread_barrier_t connect_barrier; /* Synchronize the connection thread */
+    int thread_running;      /* Set if connection_thread needs to be joined */
+    int disconnecting;       /* Set when we are the ones that are closing the connection */
     pthread_mutex_t event_lock, msg_lock; /* Locks for the message handling functions */
     pthread_cond_t event_cond, msg_cond; /* Condition variables for the message handling */
     event_db *events;      /* Array of events stored for this connection */
@@ -129,6 +130,7 @@ struct dax_state {
     int emsg_queue_size;     /* Total size of the Event Message Queue */
     int emsg_queue_count;    /* number of entries in the event message queue */
     dax_message *last_msg;   /* The last message received on the socket */
+    unsigned int late_count; /* Number of responses that nobody is waiting for any longer */
     void (*disconnect_callback)(int result);
 };
 
@@ -195,6 +197,8 @@ int cache_tag_del(dax_state *, tag_index);
 int opt_get_msgtimeout(dax_state *);
 int opt_lua_init_func(dax_state *);
 
+void stop_connection(dax_state *);
+
 datatype *get_cdt_pointer(dax_state *, tag_type, int *);
 int add_cdt_to_cache(dax_state *, tag_type type, char *typedesc);
 int dax_cdt_get(dax_state *ds, tag_type type, char *name);
diff --git a/src/lib/libinit.c b/src/lib/libinit.c
index 58c05c4..bae6579 100644
--- a/src/lib/libinit.c
+++ b/src/lib/libinit.c
@@ -69,6 +69,12 @@ dax_init(const char *name)
         return NULL;
     }
     ds->last_msg = NULL;
+    ds->late_count = 0;
+    ds->thread_running = 0;
+    ds->disconnecting = 0;
+    ds->error_code = 0;
+    ds->event_data = NULL;
+    ds->event_data_size = 0;
     ds->event_size = 1;
     ds->event_count = 0;
     /* Event Message FIFO Queue */
@@ -102,11 +108,16 @@ dax_init(const char *name)
 int
 dax_free(dax_state *ds)
 {
-    pthread_mutex_unlock(&ds->lock);
+    int n;
+
+    stop_connection(ds);
     pthread_mutex_destroy(&ds->lock);
     free(ds->modulename);
     /* TODO: gotta loop through and free the udata in the events. */
     free(ds->events);
+    for(n = 0; n < ds->emsg_queue_count; n++) {
+        free(ds->emsg_queue[n]);
+    }
     free(ds->emsg_queue);
     free(ds);
     return 0;
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 36b3cb0..0cfd97e 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -37,120 +37,156 @@
 static int
 _message_send(dax_state *ds, int command, void *payload, size_t size)
 {
-    int result;
+    ssize_t result;
+    size_t sent = 0;
     char buff[DAX_MSGMAX];
 
+    if(size > MSG_DATA_SIZE) return ERR_2BIG;
+
+    pthread_mutex_lock(&ds->msg_lock);
     if(ds->sfd < 0) {
-    	return ERR_DISCONNECTED;
+        pthread_mutex_unlock(&ds->msg_lock);
+        return ERR_DISCONNECTED;
     }
+    /* If there is still an unclaimed message here it does not belong to the
+     * request that we are about to make */
+    free(ds->last_msg);
+    ds->last_msg = NULL;
+    pthread_mutex_unlock(&ds->msg_lock);
+
     /* We always send the size and command in network order */
     ((uint32_t *)buff)[0] = htonl(size + MSG_HDR_SIZE);
     ((uint32_t *)buff)[1] = htonl(command);
-    memcpy(&buff[MSG_HDR_SIZE], payload, size);
+    if(size > 0) memcpy(&buff[MSG_HDR_SIZE], payload, size);
 
-    /* TODO: We need to set some kind of timeout here.  This could block
-       forever if something goes wrong.  It may be a signal or something too. */
-    result = write(ds->sfd, buff, size + MSG_HDR_SIZE);
-    if(result < 0) {
-    /* TODO: Should we handle the case when this returns due to a signal */
-        dax_log(DAX_LOG_ERROR, "_message_send: %s", strerror(errno));
-        return ERR_MSG_SEND;
+    /* The socket has a send timeout so this can't block forever. */
+    while(sent < size + MSG_HDR_SIZE) {
+        result = send(ds->sfd, &buff[sent], size + MSG_HDR_SIZE - sent, MSG_NOSIGNAL);
+        if(result < 0) {
+            if(errno == EINTR) continue;
+            dax_log(DAX_LOG_ERROR, "_message_send: %s", strerror(errno));
+            /* We can't leave a partial message in the stream so this
+             * connection is of no more use to us. */
+            if(sent > 0) shutdown(ds->sfd, SHUT_RDWR);
+            return ERR_MSG_SEND;
+        }
+        sent += result;
     }
     return 0;
 }
 
-/* This function retrieves a single message from the given fd. */
+/* Reads exactly 'size' bytes from fd.  'started' should be non zero if part
+ * of the message has already been read.  If we are at the beginning of a message
+ * then we'll return ERR_TIMEOUT if nothing shows up.  Once we have part of a
+ * message we can't give up without losing our place in the stream so we keep
+ * trying unless 'tries' is non zero, in which case we'll give up once we have
+ * timed out that many times. */
 static int
-_message_get(int fd, dax_message *msg) {
-    unsigned char buff[DAX_MSGMAX];
-    int index, result;
-    index = 0;
-
-    while( index < MSG_HDR_SIZE) {
-    	/* Start by reading the header */
-        result = read(fd, &buff[index], MSG_HDR_SIZE);
+_read_bytes(int fd, unsigned char *buff, size_t size, int started, int tries)
+{
+    size_t index = 0;
+    ssize_t result;
+
+    while(index < size) {
+        result = read(fd, &buff[index], size - index);
         if(result < 0) {
-            if(errno == EWOULDBLOCK) {
-                return ERR_TIMEOUT;
-            } else {
-                return ERR_MSG_RECV;
-            }
+            if(errno == EINTR) continue;
+            if(errno != EWOULDBLOCK && errno != EAGAIN) return ERR_MSG_RECV;
+            if(index == 0 && !started) return ERR_TIMEOUT;
+            if(tries > 0 && --tries == 0) return ERR_TIMEOUT;
         } else if(result == 0) {
             return ERR_DISCONNECTED;
         } else {
             index += result;
         }
     }
+    return 0;
+}
+
+/* This function retrieves a single message from the given fd. */
+static int
+_message_get(int fd, dax_message *msg, int tries) {
+    unsigned char buff[MSG_HDR_SIZE];
+    int result;
+
+    /* Start by reading the header */
+    result = _read_bytes(fd, buff, MSG_HDR_SIZE, 0, tries);
+    if(result) return result;
     /* At this point we should have the size and the message type */
     msg->size = ntohl(*(uint32_t *)buff);
     msg->msg_type = ntohl(*((uint32_t *)&buff[4]));
+    /* If the server tries to send us more than a message can hold then
+     * there is no way to find the next message in the stream. */
+    if(msg->size > MSG_DATA_SIZE) return ERR_MSG_BAD;
     /* Now we get the rest of the message */
-    index = 0;
-    while( index < msg->size) {
-    	/* Read the rest of the message */
-        result = read(fd, &buff[index], msg->size-index);
-        if(result < 0) {
-            if(errno == EWOULDBLOCK) {
-                return ERR_TIMEOUT;
-            } else {
-                return ERR_MSG_RECV;
-            }
-        } else if(result == 0) {
-            return ERR_DISCONNECTED;
-        } else {
-            index += result;
-        }
-    }
-    /* TODO: Use msg->data in the read functions instead of this copy */
-	memcpy(msg->data, buff, msg->size);
-    return 0;
+    return _read_bytes(fd, (unsigned char *)msg->data, msg->size, 1, tries);
 }
 
 /* This function waits for a message with the given command to come in. If
    a message of another command comes in it will send that message out to
    an asynchronous command handler.  This is due to a race condition that could
    happen if the server puts a message in the queue after we send a request but
-   before we retrieve the result. */
-/* TODO: Do a better job of explaining the functionality of this function */
+   before we retrieve the result.
+
+   If 'size' is not NULL then it should contain the number of bytes that can be
+   stored in payload.  It will be set to the number of bytes that were received.
+   It is an error for the server to send us more than we have room for. */
 static int
 _message_recv(dax_state *ds, int command, void *payload, size_t *size, int response)
 {
 	int result;
     struct timespec timeout;
 
+    clock_gettime(CLOCK_REALTIME, &timeout);
+    timeout.tv_sec += ds->msgtimeout/1000;
+    timeout.tv_nsec += ds->msgtimeout%1000 *1000000L;
+    if(timeout.tv_nsec >= 1000000000L) {
+        timeout.tv_sec++;
+        timeout.tv_nsec -= 1000000000L;
+    }
     pthread_mutex_lock(&ds->msg_lock);
     while(ds->last_msg == NULL) {
-        clock_gettime(CLOCK_REALTIME, &timeout);
-        timeout.tv_sec += ds->msgtimeout/1000;
-        timeout.tv_nsec += ds->msgtimeout%1000 *1e6;
-        if(timeout.tv_nsec>1e9) {
-            timeout.tv_sec++;
-            timeout.tv_nsec-=1e9;
+        if(ds->sfd < 0) {
+            pthread_mutex_unlock(&ds->msg_lock);
+            return ERR_DISCONNECTED;
         }
         result = pthread_cond_timedwait(&ds->msg_cond, &ds->msg_lock, &timeout);
-        if(result == ETIMEDOUT) {
+        if(result == ETIMEDOUT && ds->last_msg == NULL) {
             DF("message_recv() Timeout");
+            /* If the response shows up later it must not be mistaken for
+             * the response to some other request. */
+            ds->late_count++;
             pthread_mutex_unlock(&ds->msg_lock);
             return ERR_TIMEOUT;
         }
-        assert(result == 0);
+        assert(result == 0 || result == ETIMEDOUT);
     }
     assert(ds->last_msg != NULL);
     if(ds->last_msg->msg_type == (command | MSG_ERROR)) {
-        result = stom_dint((*(int32_t *)&ds->last_msg->data[0]));
+        result = ERR_GENERIC;
+        if(ds->last_msg->size >= sizeof(int32_t)) {
+            result = stom_dint((*(int32_t *)&ds->last_msg->data[0]));
+            if(result == 0) result = ERR_GENERIC;
+        }
         free(ds->last_msg);
         ds->last_msg = NULL;
         pthread_mutex_unlock(&ds->msg_lock);
         return result;
     }  else if(ds->last_msg->msg_type == (command | (response ? MSG_RESPONSE : 0))) {
+        result = 0;
         if(size) {
-            memcpy(payload, ds->last_msg->data, ds->last_msg->size);
-            *size = ds->last_msg->size;
+            if(ds->last_msg->size > *size) {
+                dax_log(DAX_LOG_ERROR, "Received a response that is larger than expected");
+                result = ERR_MSG_BAD;
+            } else {
+                memcpy(payload, ds->last_msg->data, ds->last_msg->size);
+                *size = ds->last_msg->size;
+            }
         }
         free(ds->last_msg);
         ds->last_msg = NULL;
         pthread_mutex_unlock(&ds->msg_lock);
-        return 0;
+        return result;
     } else {
         free(ds->last_msg);
         ds->last_msg = NULL;
@@ -190,11 +226,17 @@ _get_connection(dax_state *ds)
         /* fill socket address structure with our address */
         memset(&addr_un, 0, sizeof(addr_un));
         addr_un.sun_family = AF_UNIX;
-        strncpy(addr_un.sun_path, dax_get_attr(ds, "socketname"), sizeof(addr_un.sun_path));
+        if(strlen(dax_get_attr(ds, "socketname")) >= sizeof(addr_un.sun_path)) {
+            dax_log(DAX_LOG_ERROR, "Socket name is too long");
+            close(fd);
+            return ERR_2BIG;
+        }
+        strcpy(addr_un.sun_path, dax_get_attr(ds, "socketname"));
 
         len = offsetof(struct sockaddr_un, sun_path) + strlen(addr_un.sun_path);
         if (connect(fd, (struct sockaddr *)&addr_un, len) < 0) {
             dax_log(DAX_LOG_ERROR, "Unable to connect to local socket - %s", strerror(errno));
+            close(fd);
             return ERR_NO_SOCKET;
         } else {
             dax_log(DAX_LOG_COMM, "Connected to Local Server fd = %d", fd);
@@ -212,6 +254,7 @@ _get_connection(dax_state *ds)
 
         if (connect(fd, (struct sockaddr *)&addr_in, sizeof(addr_in)) < 0) {
             dax_log(DAX_LOG_ERROR, "Unable to connect to remote socket - %s", strerror(errno));
+            close(fd);
             return ERR_NO_SOCKET;
         } else {
             dax_log(DAX_LOG_COMM, "Connected to Network Server fd = %d", fd);
@@ -222,13 +265,19 @@ _get_connection(dax_state *ds)
 
     len = setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
     if(len) {
-        dax_log(DAX_LOG_ERROR, "Problem setting socket timeout - s", strerror(errno));
+        dax_log(DAX_LOG_ERROR, "Problem setting socket timeout - %s", strerror(errno));
+    }
+    len = setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv));
+    if(len) {
+        dax_log(DAX_LOG_ERROR, "Problem setting socket timeout - %s", strerror(errno));
     }
     return fd;
 
 }
 
 #define CON_HDR_SIZE 8
+/* Server id plus one each of INT, DINT, LINT, REAL and LREAL */
+#define REG_RESPONSE_SIZE 30
 
 static int
 _mod_register(dax_state *ds, char *name)
@@ -243,7 +292,7 @@ _mod_register(dax_state *ds, char *name)
     len = strlen(name) + 1;
     if(len > (MSG_DATA_SIZE - CON_HDR_SIZE)) {
         len = MSG_DATA_SIZE - CON_HDR_SIZE;
-        name[len] = '\0';
+        name[len - 1] = '\0';
     }
 
     /* For registration we send the data in network order no matter what */
@@ -255,12 +304,22 @@ _mod_register(dax_state *ds, char *name)
     dax_log(DAX_LOG_COMM, "Sending registration for name - %s", ds->modulename);
     if((result = _message_send(ds, MSG_MOD_REG, buff, CON_HDR_SIZE + len)))
         return result;
-    len = DAX_MSGMAX;
 
-    result = _message_get(ds->sfd, &msg);
+    result = _message_get(ds->sfd, &msg, 1);
     if(result) {
     	return result;
     }
+    if(msg.msg_type == (MSG_MOD_REG | MSG_ERROR)) {
+        result = ERR_GENERIC;
+        if(msg.size >= sizeof(int32_t)) {
+            memcpy(&result, msg.data, sizeof(int32_t));
+            if(result == 0) result = ERR_GENERIC;
+        }
+        return result;
+    }
+    if(msg.msg_type != (MSG_MOD_REG | MSG_RESPONSE) || msg.size < REG_RESPONSE_SIZE) {
+        return ERR_MSG_BAD;
+    }
 
     /* Store the unique ID that the server has sent us. */
     ds->id =  *((uint32_t *)&msg.data[0]);
@@ -295,7 +354,7 @@ _mod_register(dax_state *ds, char *name)
  * called from the connection thread and functions that expect to either receive a response
  * message or an event use these condition variables to wait on these mechanims. */
 static int
-_read_next_message(dax_state *ds)
+_read_next_message(dax_state *ds, int fd)
 {
     static unsigned int events_lost;
     dax_message *msg;
@@ -304,7 +363,7 @@ _read_next_message(dax_state *ds)
     msg = malloc(sizeof(dax_message));
     if(msg == NULL) return ERR_ALLOC;
 
-    result = _message_get(ds->sfd, msg);
+    result = _message_get(fd, msg, 0);
     if(result) {
         if(result == ERR_DISCONNECTED) {
             dax_log(DAX_LOG_ERROR, "Server disconnected abruptly");
@@ -336,61 +395,82 @@ _read_next_message(dax_state *ds)
         pthread_cond_signal(&ds->event_cond);
     } else { /* All other messages we put here */
         pthread_mutex_lock(&ds->msg_lock);
-        ds->last_msg = msg;
+        if(ds->late_count > 0) {
+            /* Whoever was waiting for this one has already given up */
+            ds->late_count--;
+            free(msg);
+        } else {
+            free(ds->last_msg);
+            ds->last_msg = msg;
+        }
         pthread_mutex_unlock(&ds->msg_lock);
         pthread_cond_signal(&ds->msg_cond);
     }
     return 0;
 }
 
-static void
-_connection_cleanup(dax_state *ds) {
-    ds->sfd = -1;
-    if(ds->last_msg != NULL) free(ds->last_msg);
-    ds->last_msg = NULL;
-    free_tag_cache(ds);
-    /* TODO: Free up the event FIFO too */
-}
-
 static void *
 _connection_thread(void *arg)
 {
-    int result;
-
+    int result, fd, unexpected;
     dax_state *ds;
+
     ds = (dax_state *)arg;
+    fd = ds->sfd;
 
-    /* This is the connection that we used for all the functional
-     * request / response messages. */
-    ds->sfd = _get_connection(ds);
-    if(ds->sfd >= 0) {
-        result = _mod_register(ds, ds->modulename);
-        init_tag_cache(ds);
-        /* This basically let's the dax_connect function return success */
-        ds->error_code = 0;
-        pthread_barrier_wait(&ds->connect_barrier);
-        /* dax_disconnect() will set this to zero to get us out of this loop */
-        while(ds->sfd >= 0) { /* Main connection loop */
-            result = _read_next_message(ds);
-            if(result == ERR_DISCONNECTED) {
-                if(ds->disconnect_callback) {
-                    ds->disconnect_callback(result);
-                }
-                break;
-                //_connection_cleanup(ds);
-            }
-        }
-        _connection_cleanup(ds);
-        ds->error_code = result;
-        return NULL;
-    } else {
-        result = ds->sfd;
-        ds->error_code = result;
-        pthread_barrier_wait(&ds->connect_barrier);
+    /* Main connection loop.  dax_disconnect() will shutdown the socket
+     * to get us out of this. */
+    do {
+        result = _read_next_message(ds, fd);
+    } while(result == 0 || result == ERR_TIMEOUT);
+
+    /* Let everyone know that we aren't connected any more and wake up
+     * whoever is still waiting for a response. */
+    pthread_mutex_lock(&ds->msg_lock);
+    unexpected = !ds->disconnecting;
+    ds->sfd = -1;
+    free(ds->last_msg);
+    ds->last_msg = NULL;
+    pthread_cond_broadcast(&ds->msg_cond);
+    pthread_mutex_unlock(&ds->msg_lock);
+
+    /* The lock keeps us from closing the socket while it's being used */
+    pthread_mutex_lock(&ds->lock);
+    close(fd);
+    free_tag_cache(ds);
+    pthread_mutex_unlock(&ds->lock);
+
+    if(unexpected && ds->disconnect_callback) {
+        ds->disconnect_callback(ERR_DISCONNECTED);
     }
     return NULL;
 }
 
+/* Shuts down the connection if there is one and waits for
+ * the connection thread to finish */
+void
+stop_connection(dax_state *ds)
+{
+    int running;
+    pthread_t thread;
+
+    pthread_mutex_lock(&ds->msg_lock);
+    ds->disconnecting = 1;
+    if(ds->sfd >= 0) shutdown(ds->sfd, SHUT_RDWR);
+    running = ds->thread_running;
+    thread = ds->connection_thread;
+    ds->thread_running = 0;
+    pthread_mutex_unlock(&ds->msg_lock);
+
+    if(running) {
+        /* We could have been called from the disconnect callback */
+        if(pthread_equal(thread, pthread_self())) {
+            pthread_detach(thread);
+        } else {
+            pthread_join(thread, NULL);
+        }
+    }
+}
 
 /*!
  * Setup the module data structures and send registration message
@@ -403,19 +483,47 @@ _connection_thread(void *arg)
 int
 dax_connect(dax_state *ds)
 {
-    /* We use this barrier to stop here until we connect to the server the
-     * first time. */
-    pthread_barrier_init(&ds->connect_barrier, NULL, 2);
+    int result, fd;
 
-    pthread_create(&ds->connection_thread, NULL, _connection_thread, ds);
-    pthread_detach(ds->connection_thread);
-    pthread_barrier_wait(&ds->connect_barrier);
+    /* If we were connected before, make sure that is finished */
+    stop_connection(ds);
 
-    if(ds->error_code == 0) {
-        opt_lua_init_func(ds);
+    fd = _get_connection(ds);
+    if(fd < 0) {
+        ds->error_code = fd;
+        return fd;
     }
+    /* This is the connection that we use for all the functional
+     * request / response messages. */
+    pthread_mutex_lock(&ds->msg_lock);
+    ds->sfd = fd;
+    ds->late_count = 0;
+    ds->disconnecting = 0;
+    pthread_mutex_unlock(&ds->msg_lock);
 
-    return ds->error_code;
+    result = _mod_register(ds, ds->modulename);
+    if(result == 0) {
+        init_tag_cache(ds);
+        pthread_mutex_lock(&ds->msg_lock);
+        if(pthread_create(&ds->connection_thread, NULL, _connection_thread, ds)) {
+            result = ERR_GENERIC;
+        } else {
+            ds->thread_running = 1;
+        }
+        pthread_mutex_unlock(&ds->msg_lock);
+    }
+    ds->error_code = result;
+    if(result) {
+        dax_log(DAX_LOG_ERROR, "Unable to register with the server - %d", result);
+        pthread_mutex_lock(&ds->msg_lock);
+        ds->sfd = -1;
+        pthread_mutex_unlock(&ds->msg_lock);
+        close(fd);
+        return result;
+    }
+    opt_lua_init_func(ds);
+
+    return 0;
 }
 
 /*!
@@ -429,21 +537,22 @@ dax_connect(dax_state *ds)
 int
 dax_disconnect(dax_state *ds)
 {
-    int result = -1;
-    size_t len;
+    int result;
 
     pthread_mutex_lock(&ds->lock);
-    /* Tells the connection thread to exit */
-    if(ds->sfd) {
+    pthread_mutex_lock(&ds->msg_lock);
+    ds->disconnecting = 1;
+    result = ds->sfd < 0 ? -1 : 0;
+    pthread_mutex_unlock(&ds->msg_lock);
+    if(result == 0) {
         result = _message_send(ds, MSG_MOD_REG, NULL, 0);
         if(! result ) {
-            len = 0;
-            result = _message_recv(ds, MSG_MOD_REG, NULL, &len, 1);
+            result = _message_recv(ds, MSG_MOD_REG, NULL, NULL, 1);
         }
-        close(ds->sfd);
-        ds->sfd = 0;
     }
     pthread_mutex_unlock(&ds->lock);
+    /* Tells the connection thread to exit */
+    stop_connection(ds);
     return result;
 }
 
-- 
2.43.0


From 46c21dbcbd0b09eb87f39a35527da3dec15b5c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:44 +0000
Subject: [PATCH 17/64] fix: client library: check the size of every reply
 before using it

Replies to tag, map and group requests were copied by their wire size or
assumed to be complete; the tag cache could return another tag's count.
---
 src/lib/libmsg.c | 157 ++++++++++++++++++++++++++---------------------
 1 file changed, 87 insertions(+), 70 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 0cfd97e..3b4fae4 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -577,15 +577,14 @@ dax_tag_add(dax_state *ds, tag_handle *h, char *name, tag_type type, int count,
 {
     int result;
     size_t size;
-    dax_tag tag;
-    char buff[DAX_TAGNAME_SIZE + 8 + 1];
+    char buff[DAX_TAGNAME_SIZE + 12 + 1];
 
-    if(count == 0) return ERR_ARG;
+    if(count <= 0) return ERR_ARG;
     if(name) {
         if((size = strlen(name)) > DAX_TAGNAME_SIZE) {
             return ERR_2BIG;
         }
-        /* Add the 8 bytes for type and count to one byte for NULL */
+        /* Add the 12 bytes for type, count and attributes to one byte for NULL */
         size += 13;
         /* TODO Need to do some more error checking here */
         *((uint32_t *)&buff[0]) = mtos_udint(type);
@@ -604,8 +603,9 @@ dax_tag_add(dax_state *ds, tag_handle *h, char *name, tag_type type, int count,
         return result;
     }
 
-    size = 4; /* we just need the handle */
+    size = sizeof(buff);
     result = _message_recv(ds, MSG_TAG_ADD, buff, &size, 1);
+    if(result == 0 && size < sizeof(tag_index)) result = ERR_MSG_BAD;
 
     if(result == 0) {
         if(h != NULL) {
@@ -620,14 +620,10 @@ dax_tag_add(dax_state *ds, tag_handle *h, char *name, tag_type type, int count,
                 h->size = count * dax_get_typesize(ds, type);
             }
         }
-        strcpy(tag.name, name);
-        tag.idx = *(tag_index *)buff;
-        tag.type = type;
-        tag.count = count;
-        tag.attr = attr;
-        /* Just in case this call modifies the tag */
-        cache_tag_del(ds, tag.idx);
-        cache_tag_add(ds, &tag);
+        /* Just in case this call modifies the tag.  If the tag already exists
+         * then it may not have the count and the attributes that we asked for
+         * so we'll let the next request for this tag put it in the cache. */
+        cache_tag_del(ds, *(tag_index *)buff);
     }
     pthread_mutex_unlock(&ds->lock);
     return result;
@@ -645,7 +641,6 @@ int
 dax_tag_del(dax_state* ds, tag_index index)
 {
     int result;
-    size_t size;
     char buff[sizeof(tag_index)];
     *((uint32_t *)&buff[0]) = mtos_udint(index);
 
@@ -656,12 +651,31 @@ dax_tag_del(dax_state* ds, tag_index index)
         return result;
     }
 
-    size = 4; /* we just need the handle */
-    result = _message_recv(ds, MSG_TAG_DEL, buff, &size, 1);
+    result = _message_recv(ds, MSG_TAG_DEL, NULL, NULL, 1);
+    if(result == 0 || result == ERR_DELETED) cache_tag_del(ds, index);
     pthread_mutex_unlock(&ds->lock);
     return result;
 }
 
+/* Converts the tag definition that the server sends us in response
+ * to a tag get message.  The name is the last thing in the message. */
+static int
+_parse_tag(dax_tag *tag, char *buff, size_t size)
+{
+    size_t len;
+
+    if(size <= 14) return ERR_MSG_BAD;
+    len = strnlen(&buff[14], size - 14);
+    if(len > DAX_TAGNAME_SIZE) return ERR_MSG_BAD;
+    tag->idx = stom_dint(*((int32_t *)&buff[0]));
+    tag->type = stom_udint(*((uint32_t *)&buff[4]));
+    tag->count = stom_udint(*((uint32_t *)&buff[8]));
+    tag->attr = stom_uint(*((uint16_t *)&buff[12]));
+    memcpy(tag->name, &buff[14], len);
+    tag->name[len] = '\0';
+    return 0;
+}
+
 /*!
  * Retrieve a tag definition based on the tags name.
  *
@@ -677,7 +691,7 @@ dax_tag_byname(dax_state *ds, dax_tag *tag, char *name)
 {
     int result;
     size_t size;
-    char *buff;
+    char buff[DAX_TAGNAME_SIZE + 17];
 
     if(name == NULL) return ERR_ARG;
 
@@ -686,36 +700,23 @@ dax_tag_byname(dax_state *ds, dax_tag *tag, char *name)
 
     pthread_mutex_lock(&ds->lock);
     if(check_cache_name(ds, name, tag)) {
-        /* We make buff big enough for the outgoing message and the incoming
-           response message which would have 4 additional int32s */
-        buff = malloc(size + 18);
-        if(buff == NULL) return ERR_ALLOC;
         buff[0] = TAG_GET_NAME;
         strcpy(&buff[1], name);
         /* Send the message to the server.  Add 2 to the size for the subcommand and the NULL */
         result = _message_send(ds, MSG_TAG_GET, buff, size + 2);
         if(result) {
             dax_log(DAX_LOG_ERROR, "Can't send MSG_TAG_GET message");
-            free(buff);
             pthread_mutex_unlock(&ds->lock);
             return result;
         }
-        size += 18; /* This makes room for the type, count and handle */
-
+        size = sizeof(buff);
         result = _message_recv(ds, MSG_TAG_GET, buff, &size, 1);
+        if(result == 0) result = _parse_tag(tag, buff, size);
         if(result) {
-            free(buff);
             pthread_mutex_unlock(&ds->lock);
             return result;
         }
-        tag->idx = stom_dint( *((int *)&buff[0]) );
-        tag->type = stom_udint(*((uint32_t *)&buff[4]));
-        tag->count = stom_udint(*((uint32_t *)&buff[8]));
-        tag->attr = stom_udint(*((uint16_t *)&buff[12]));
-        buff[size - 1] = '\0'; /* Just to make sure */
-        strcpy(tag->name, &buff[14]);
         cache_tag_add(ds, tag);
-        free(buff);
     }
     pthread_mutex_unlock(&ds->lock);
     return 0;
@@ -751,16 +752,11 @@ dax_tag_byindex(dax_state *ds, dax_tag *tag, tag_index idx)
         /* Maximum size of buffer, the 17 is the NULL plus four integers */
         size = DAX_TAGNAME_SIZE + 17;
         result = _message_recv(ds, MSG_TAG_GET, buff, &size, 1);
+        if(result == 0) result = _parse_tag(tag, buff, size);
         if(result) {
             pthread_mutex_unlock(&ds->lock);
             return result;
         }
-        tag->idx = stom_dint(*((int32_t *)&buff[0]));
-        tag->type = stom_dint(*((int32_t *)&buff[4]));
-        tag->count = stom_dint(*((int32_t *)&buff[8]));
-        tag->attr = stom_dint(*((int16_t *)&buff[12]));
-        buff[DAX_TAGNAME_SIZE + 14] = '\0'; /* Just to be safe */
-        strcpy(tag->name, &buff[14]);
         /* Add the tag to the tag cache */
         cache_tag_add(ds, tag);
     }
@@ -787,6 +783,7 @@ int
 dax_read(dax_state *ds, tag_index idx, uint32_t offset, void *data, size_t size)
 {
     int result = 0;
+    size_t rsize = size;
     uint8_t buff[14];
 
     /* If we try to read more data that can be held in a single message we return an error */
@@ -797,6 +794,7 @@ dax_read(dax_state *ds, tag_index idx, uint32_t offset, void *data, size_t size)
     *((tag_index *)&buff[0]) = mtos_dint(idx);
     *((uint32_t *)&buff[4]) = mtos_dint(offset);
     *((uint32_t *)&buff[8]) = mtos_dint(size);
+    buff[12] = buff[13] = 0;
 
     pthread_mutex_lock(&ds->lock);
     result = _message_send(ds, MSG_TAG_READ, (void *)buff, sizeof(buff));
@@ -804,13 +802,14 @@ dax_read(dax_state *ds, tag_index idx, uint32_t offset, void *data, size_t size)
         pthread_mutex_unlock(&ds->lock);
         return result;
     }
-    result = _message_recv(ds, MSG_TAG_READ, (char *)data, &size, 1);
+    result = _message_recv(ds, MSG_TAG_READ, (char *)data, &rsize, 1);
+    if(result == 0 && rsize != size) result = ERR_MSG_BAD;
 
     if(result) {
-        pthread_mutex_unlock(&ds->lock);
         if(result == ERR_DELETED) {
             cache_tag_del(ds, idx);
         }
+        pthread_mutex_unlock(&ds->lock);
         return result;
     }
     pthread_mutex_unlock(&ds->lock);
@@ -844,7 +843,7 @@ dax_write(dax_state *ds, tag_index idx, uint32_t offset, void *data, size_t size
     sendsize = size + sizeof(tag_index) + sizeof(uint32_t);
     /* It is assumed that the flags that we want to set are the first 4 bytes are in *data */
     /* If we try to read more data that can be held in a single message we return an error */
-    if(sendsize > MSG_DATA_SIZE) {
+    if(size > MSG_DATA_SIZE || sendsize > MSG_DATA_SIZE) {
         return ERR_2BIG;
     }
 
@@ -862,10 +861,10 @@ dax_write(dax_state *ds, tag_index idx, uint32_t offset, void *data, size_t size
     }
     result = _message_recv(ds, MSG_TAG_WRITE, buff, 0, 1);
     if(result) {
-        pthread_mutex_unlock(&ds->lock);
         if(result == ERR_DELETED) {
             cache_tag_del(ds, idx);
         }
+        pthread_mutex_unlock(&ds->lock);
         return result;
     }
     pthread_mutex_unlock(&ds->lock);
@@ -901,7 +900,7 @@ dax_mask(dax_state *ds, tag_index idx, uint32_t offset, void *data, void *mask,
     sendsize = size*2 + sizeof(tag_index) + sizeof(uint32_t);
     /* It is assumed that the flags that we want to set are the first 4 bytes are in *data */
     /* If we try to read more data that can be held in a single message we return an error */
-    if(sendsize > MSG_DATA_SIZE) {
+    if(size > MSG_DATA_SIZE || sendsize > MSG_DATA_SIZE) {
         return ERR_2BIG;
     }
     /* Write the data to the message buffer */
@@ -918,10 +917,10 @@ dax_mask(dax_state *ds, tag_index idx, uint32_t offset, void *data, void *mask,
     }
     result = _message_recv(ds, MSG_TAG_MWRITE, buff, 0, 1);
     if(result) {
-        pthread_mutex_unlock(&ds->lock);
         if(result == ERR_DELETED) {
             cache_tag_del(ds, idx);
         }
+        pthread_mutex_unlock(&ds->lock);
         return result;
     }
     pthread_mutex_unlock(&ds->lock);
@@ -1095,8 +1094,9 @@ dax_tag_get_override(dax_state *ds, tag_handle handle, void *data, void *mask) {
         pthread_mutex_unlock(&ds->lock);
         return result;
     }
-    size = handle.size * 2;
+    size = sizeof(buff);
     result = _message_recv(ds, MSG_GET_OVRD, buff, &size, 1);
+    if(result == 0 && size != (size_t)handle.size * 2) result = ERR_MSG_BAD;
     if(result) {
         pthread_mutex_unlock(&ds->lock);
         return result;
@@ -1204,7 +1204,7 @@ dax_atomic_op(dax_state *ds, tag_handle h, void *data, uint16_t operation) {
     uint8_t buff[MSG_DATA_SIZE];
 
     /* This calculates the amount of data that we can send with a single message */
-    sendsize = h.size + 21;
+    sendsize = (size_t)h.size + 21;
     if(sendsize > MSG_DATA_SIZE) {
         return ERR_2BIG;
     }
@@ -1230,10 +1230,10 @@ dax_atomic_op(dax_state *ds, tag_handle h, void *data, uint16_t operation) {
     }
     result = _message_recv(ds, MSG_ATOMIC_OP, buff, 0, 1);
     if(result) {
-        pthread_mutex_unlock(&ds->lock);
         if(result == ERR_DELETED) {
             cache_tag_del(ds, h.index);
         }
+        pthread_mutex_unlock(&ds->lock);
         return result;
     }
     pthread_mutex_unlock(&ds->lock);
@@ -1308,7 +1308,9 @@ dax_event_add(dax_state *ds, tag_handle *h, int event_type, void *data,
         pthread_mutex_unlock(&ds->lock);
         return result;
     } else {
+        size = sizeof(result);
         test = _message_recv(ds, MSG_EVNT_ADD, &result, &size, 1);
+        if(test == 0 && size != sizeof(result)) test = ERR_MSG_BAD;
         if(test) {
             pthread_mutex_unlock(&ds->lock);
             return test;
@@ -1360,7 +1362,7 @@ dax_event_del(dax_state *ds, dax_id id)
         pthread_mutex_unlock(&ds->lock);
         return result;
     } else {
-        test = _message_recv(ds, MSG_EVNT_DEL, buff, &size, 1);
+        test = _message_recv(ds, MSG_EVNT_DEL, NULL, NULL, 1);
         if(test) {
             pthread_mutex_unlock(&ds->lock);
             return test;
@@ -1415,7 +1417,7 @@ dax_event_options(dax_state *ds, dax_id id, uint32_t options)
         pthread_mutex_unlock(&ds->lock);
         return result;
     } else {
-        test = _message_recv(ds, MSG_EVNT_OPT, buff, &size, 1);
+        test = _message_recv(ds, MSG_EVNT_OPT, NULL, NULL, 1);
         pthread_mutex_unlock(&ds->lock);
         return test;
     }
@@ -1468,17 +1470,17 @@ dax_cdt_create(dax_state *ds, dax_cdt *cdt, tag_type *type)
     if(size > MSG_DATA_SIZE) return ERR_2BIG;
 
     /* Now build the string */
-    strncpy(buff, cdt->name, size - 1);
+    strcpy(buff, cdt->name);
     this = cdt->members;
 
     while(this != NULL) {
-        strncat(buff, ":", size - 1);
-        strncat(buff, this->name, size - 1);
-        strncat(buff, ",", size);
-        strncat(buff, dax_type_to_string(ds, this->type), size - 1);
-        strncat(buff, ",", size - 1);
+        strcat(buff, ":");
+        strcat(buff, this->name);
+        strcat(buff, ",");
+        strcat(buff, dax_type_to_string(ds, this->type));
+        strcat(buff, ",");
         snprintf(test, DAX_TAGNAME_SIZE + 1, "%d", this->count);
-        strncat(buff, test, size - 1);
+        strcat(buff, test);
 
         this = this->next;
     }
@@ -1491,8 +1493,9 @@ dax_cdt_create(dax_state *ds, dax_cdt *cdt, tag_type *type)
         return result;
     }
 
-    size = 10;
+    size = sizeof(rbuff);
     result = _message_recv(ds, MSG_CDT_CREATE, rbuff, &size, 1);
+    if(result == 0 && size < sizeof(tag_type)) result = ERR_MSG_BAD;
 
     if(result == 0) {
         if(type != NULL) {
@@ -1530,14 +1533,14 @@ dax_cdt_get(dax_state *ds, tag_type cdt_type, char *name)
 {
     int result;
     size_t size;
-    char buff[MSG_DATA_SIZE];
+    char buff[MSG_DATA_SIZE + 1];
     tag_type type;
 
-    size = sizeof(tag_type);
     if(name != NULL) {
+        if(strlen(name) > DAX_TAGNAME_SIZE) return ERR_2BIG;
         buff[0] = CDT_GET_NAME;
         size = strlen(name) + 1;
-        strncpy(&(buff[1]), name, size); /* Pass the cdt name in this subcommand */
+        strcpy(&(buff[1]), name); /* Pass the cdt name in this subcommand */
         size++; /* Add one for the sub command */
     } else {
         buff[0] = CDT_GET_TYPE;  /* Put the subcommand in the first byte */
@@ -1555,11 +1558,18 @@ dax_cdt_get(dax_state *ds, tag_type cdt_type, char *name)
 
     size = MSG_DATA_SIZE;
     result = _message_recv(ds, MSG_CDT_GET, buff, &size, 1);
-    pthread_mutex_unlock(&ds->lock);
     if(result == 0) {
-        type = stom_udint(*((tag_type *)buff));
-        result = add_cdt_to_cache(ds, type, &(buff[4]));
+        buff[size] = '\0';
+        type = 0;
+        if(size > sizeof(tag_type)) type = stom_udint(*((tag_type *)buff));
+        /* Make sure that the server sent us something that we can use */
+        if(!IS_CUSTOM(type) || (name == NULL && type != cdt_type)) {
+            result = ERR_MSG_BAD;
+        } else {
+            result = add_cdt_to_cache(ds, type, &(buff[4]));
+        }
     }
+    pthread_mutex_unlock(&ds->lock);
     return result;
 }
 
@@ -1622,6 +1632,7 @@ dax_map_add(dax_state *ds, tag_handle *src, tag_handle *dest, dax_id *id)
 
     size = MSG_DATA_SIZE;
     result = _message_recv(ds, MSG_MAP_ADD, buff, &size, 1);
+    if(result == 0 && size < sizeof(tag_index)) result = ERR_MSG_BAD;
     if(result == 0) {
         if(id != NULL) {
             id->id = *(tag_index *)buff;
@@ -1665,6 +1676,8 @@ dax_map_get(dax_state *ds, tag_handle *src, tag_handle *dest, dax_id id) {
     size = MSG_DATA_SIZE;
     result = _message_recv(ds, MSG_MAP_GET, buff, &size, 1);
     pthread_mutex_unlock(&ds->lock);
+    if(result == 0 && size < 42) result = ERR_MSG_BAD;
+    if(result) return result;
 
     src->index = *(dax_dint *)buff;
     src->byte = *(dax_dint *)&buff[4];
@@ -1748,7 +1761,7 @@ dax_group_add(dax_state *ds, int *result, tag_handle *h, int count, uint8_t opti
     *result = 0;
     /* Sanity check the sizes.  These checks are redundant because
      * the server also does them but this will keep from sending the message */
-    if(count > TAG_GROUP_MAX_MEMBERS) {
+    if(count < 0 || count > TAG_GROUP_MAX_MEMBERS) {
         *result = ERR_ARG;
         return NULL;
     }
@@ -1788,6 +1801,7 @@ dax_group_add(dax_state *ds, int *result, tag_handle *h, int count, uint8_t opti
     }
     size = MSG_DATA_SIZE;
     *result = _message_recv(ds, MSG_GRP_ADD, buff, &size, 1);
+    if(*result == 0 && size < sizeof(uint32_t)) *result = ERR_MSG_BAD;
     if(*result == 0) {
         id = (tag_group_id *)malloc(sizeof(tag_group_id));
         if(id == NULL) {
@@ -1797,6 +1811,7 @@ dax_group_add(dax_state *ds, int *result, tag_handle *h, int count, uint8_t opti
         }
         id->handles = (tag_handle *)malloc(sizeof(tag_handle)*count);
         if(id->handles == NULL) {
+            free(id);
             pthread_mutex_unlock(&ds->lock);
             *result = ERR_ALLOC;
             return NULL;
@@ -1841,17 +1856,16 @@ dax_group_read(dax_state *ds, tag_group_id *id, void *data, size_t size) {
 
     if(size < id->size) return ERR_ARG;
     u_temp = mtos_udint(id->index);
-    memcpy(data, &u_temp, 4);
 
     pthread_mutex_lock(&ds->lock);
-    result = _message_send(ds, MSG_GRP_READ, data, 4);
+    result = _message_send(ds, MSG_GRP_READ, &u_temp, 4);
     if(result) {
         pthread_mutex_unlock(&ds->lock);
         return result;
     }
 
-    size = MSG_DATA_SIZE;
     result = _message_recv(ds, MSG_GRP_READ, data, &size, 1);
+    if(result == 0 && size != id->size) result = ERR_MSG_BAD;
     if(result) {
         pthread_mutex_unlock(&ds->lock);
         return result;
@@ -1880,11 +1894,14 @@ dax_group_write(dax_state *ds, tag_group_id *id, void *data) {
 
     u_temp = mtos_udint(id->index);
     memcpy(buff, &u_temp, 4);
-
-    result = group_write_format(ds, id, data);
-    if(result) return result;
     memcpy(&buff[4], data, id->size);
+
     pthread_mutex_lock(&ds->lock);
+    result = group_write_format(ds, id, (uint8_t *)&buff[4]);
+    if(result) {
+        pthread_mutex_unlock(&ds->lock);
+        return result;
+    }
     result = _message_send(ds, MSG_GRP_WRITE, buff, id->size+4);
     if(result) {
         pthread_mutex_unlock(&ds->lock);
-- 
2.43.0


From e18e1f87ecde4b42b07c75db745a5f9e0f1f4285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:44 +0000
Subject: [PATCH 18/64] fix: client library: datatype cache deadlock and
 unchecked definitions

A datatype that wasn't cached yet was fetched with the lock already held.
---
 src/lib/libcdt.c  | 259 ++++++++++++++++++++++++----------------------
 src/lib/libdax.h  |   1 +
 src/lib/libinit.c |  13 ++-
 src/lib/libmsg.c  |   8 +-
 4 files changed, 149 insertions(+), 132 deletions(-)

diff --git a/src/lib/libcdt.c b/src/lib/libcdt.c
index c65251c..6909e1e 100644
--- a/src/lib/libcdt.c
+++ b/src/lib/libcdt.c
@@ -29,39 +29,26 @@
 # define DAX_DATATYPE_SIZE 8
 #endif
 
-/* Inserts the given datatype into the array */
-static int
-_insert_type(dax_state *ds, int index, char *typename) {
-    /* Right now all we are doing is checking that the name isn't
-     * too big.  We are assuming that the server hasn't sent us a
-     * name that is malformed. */
-    if(strlen(typename) <= DAX_TAGNAME_SIZE) {
-        ds->datatypes[index].name = strdup(typename);
-    }
-    if(ds->datatypes[index].name == NULL) {
-        return ERR_ALLOC;
-    }
-    return 0;
-}
+/* Largest index that we will accept for a datatype and the deepest
+ * that we will let the datatypes be nested. */
+#define MAX_DATATYPE_INDEX 0xFFFFF
+#define MAX_DATATYPE_DEPTH 64
 
-/* Adds the member that is described by the string desc.  This string
- * would look like the one generated by the serialize_datatype() function
- * in the server.  The index is the array index in _datatypes[] */
+static void _cdt_member_free(cdt_member *member);
+
+/* Adds the member that is described by the string desc to the end of
+ * the list.  This string would look like the one generated by the
+ * serialize_datatype() function in the server. */
 static int
-_add_member_to_cache(dax_state *ds, int index, char *desc) {
+_add_member(dax_state *ds, cdt_member **list, char *desc) {
     char *str, *last;
     char *name, *type;
-    int count;
-    cdt_member *new, *this;
+    long count;
+    cdt_member *new;
 
     name = type = NULL;
     count = 0;
 
-    new = malloc(sizeof(cdt_member));
-    if(new == NULL) {
-        return ERR_ALLOC;
-    }
-
     //--printf("Member string = '%s'\n", desc);
     name = strtok_r(desc, ",", &last);
     if(name) {
@@ -69,30 +56,28 @@ _add_member_to_cache(dax_state *ds, int index, char *desc) {
         if(type) {
             str = strtok_r(NULL, ",", &last);
             if(str) {
-                count = (int)strtol(str, (char **)NULL, 10);
+                count = strtol(str, (char **)NULL, 10);
             }
         }
     }
 
-    /* TODO: Need to do some error checking here */
-    if(name && type && (count > 0)) {
-        new->name = strdup(name);
-        new->type = dax_string_to_type(ds, type);
-        new->count = count;
-        new->next = NULL;
-        //--printf("_add_member() - name = %s type = 0x%X count = %ld\n", new->name, new->type, new->count);
-        /* Add the new member to the end of the linked list */
-        this = ds->datatypes[index].members;
-        if(this == NULL) {
-            ds->datatypes[index].members = new;
-        } else {
-            while(this->next != NULL) this = this->next;
-            this->next = new;
-        }
-    } else {
-        free(new);
+    if(name == NULL || type == NULL || count <= 0 || count > INT_MAX) {
+        return ERR_ARG;
+    }
+    new = malloc(sizeof(cdt_member));
+    if(new == NULL) return ERR_ALLOC;
+
+    new->name = strdup(name);
+    new->type = dax_string_to_type(ds, type);
+    new->count = count;
+    new->next = NULL;
+    if(new->name == NULL || new->type == 0) {
+        _cdt_member_free(new);
         return ERR_ARG;
     }
+    /* Add the new member to the end of the linked list */
+    while(*list != NULL) list = &(*list)->next;
+    *list = new;
 
     return 0;
 }
@@ -112,13 +97,16 @@ dax_get_typesize(dax_state *ds, tag_type type)
     int size = 0;
     unsigned int pos = 0; /* Bit position within the data area */
     cdt_member *this;
+    datatype *dt;
 
     type &= ~DAX_QUEUE; /* Delete the Queue bit from the type */
-    if( dax_type_to_string(ds, type) == NULL )
-        return ERR_ARG;
 
     if(IS_CUSTOM(type)) {
-        this = ds->datatypes[CDT_TO_INDEX(type)].members;
+        pthread_mutex_lock(&ds->lock);
+        dt = get_cdt_pointer(ds, type, NULL);
+        this = dt ? dt->members : NULL;
+        pthread_mutex_unlock(&ds->lock);
+        if(dt == NULL) return ERR_ARG;
         while (this != NULL) {
             if(this->type == DAX_BOOL) {
                 pos += this->count; /* BOOLs are easy just add the number of bits */
@@ -145,6 +133,7 @@ dax_get_typesize(dax_state *ds, tag_type type)
             size = 1;
         }
     } else { /* Not IS_CUSTOM() */
+        if(dax_type_to_string(ds, type) == NULL) return ERR_ARG;
         size = TYPESIZE(type) / 8; /* Size in bytes */
         if(size == 0) size = 1;
     }
@@ -153,11 +142,12 @@ dax_get_typesize(dax_state *ds, tag_type type)
 
 /* Retrieves a pointer to the datatype array element identified by type
  * returns NULL on failure and if the error pointer is not NULL the error
- * code will be placed there. */
+ * code will be placed there.  The pointer is only good as long as ds->lock is
+ * held but once a datatype is in the array its members don't change. */
 datatype *
 get_cdt_pointer(dax_state *ds, tag_type type, int *error)
 {
-    int index;
+    unsigned int index;
     int result;
 
     if(error != NULL) *error = 0;
@@ -166,7 +156,7 @@ get_cdt_pointer(dax_state *ds, tag_type type, int *error)
         if(index < ds->datatype_size && ds->datatypes[index].name != NULL) {
             return &ds->datatypes[index];
         } else {
-            result = dax_cdt_get(ds, type, NULL);
+            result = dax_cdt_get(ds, type & ~DAX_QUEUE, NULL);
             if(result == 0) {
                 return &ds->datatypes[index];
             } else {
@@ -175,67 +165,73 @@ get_cdt_pointer(dax_state *ds, tag_type type, int *error)
             return NULL;
         }
     } else {
+        if(error != NULL) *error = ERR_ARG;
         return NULL;
     }
 }
 
 /* Adds the given type to the array cache.  'type' is the type id
  * and typedesc is the type description string that would be generated
- * by a call to serialize_datatype() in the server. */
+ * by a call to serialize_datatype() in the server.  ds->lock should be
+ * held when this is called. */
 int
 add_cdt_to_cache(dax_state *ds, tag_type type, char *typedesc)
 {
-    int index, result, n;
-    char *str, *last;
+    unsigned int index, n, newsize;
+    int result = 0;
+    char *str, *last, *name;
+    datatype *new_datatype;
+    cdt_member *members = NULL;
 
     index = CDT_TO_INDEX(type);
+    if(index > MAX_DATATYPE_INDEX) return ERR_ARG;
+    if(index < ds->datatype_size && ds->datatypes[index].name != NULL) {
+        return 0; /* We already have this one */
+    }
 
-    if(ds->datatype_size == 0) { /* Make sure we have an array */
-        /* Allocate the datatype array and set the initial counters */
-        ds->datatypes = malloc(sizeof(datatype) * DAX_DATATYPE_SIZE);
-        if(ds->datatypes == NULL) {
-            return ERR_ALLOC;
-        }
-        /* Set both pointers to NULL */
-        for(n = 0; n < DAX_DATATYPE_SIZE; n++) {
-            ds->datatypes[n].name = NULL;
-            ds->datatypes[n].members = NULL;
-        }
-        ds->datatype_size = DAX_DATATYPE_SIZE;
+    str = strtok_r(typedesc, ":", &last);
+    if(str == NULL) {
+        dax_log(DAX_LOG_ERROR, "add_cdt_to_cache(): Something is seriously wrong with the string");
+        return ERR_ARG;
+    }
+    if(strlen(str) > DAX_TAGNAME_SIZE) return ERR_2BIG;
+    name = strdup(str);
+    if(name == NULL) return ERR_ALLOC;
+
+    /* The members may be of types that we have to get from the server so
+     * we build the list of members first.  The type is not available until
+     * all of its members are, so a type can't be made up of itself. */
+    if(ds->cdt_depth >= MAX_DATATYPE_DEPTH) result = ERR_ARG;
+    ds->cdt_depth++;
+    while(result == 0 && (str = strtok_r(NULL, ":", &last))) {
+        result = _add_member(ds, &members, str);
     }
+    ds->cdt_depth--;
 
     /* Do we need to grow the array */
-    while(index >= ds->datatype_size) {
-        /* Allocate more space for the array */
-        datatype *new_datatype;
-
-        new_datatype = realloc(ds->datatypes, (ds->datatype_size + DAX_DATATYPE_SIZE) * sizeof(datatype));
-
+    if(result == 0 && index >= ds->datatype_size) {
+        newsize = (index / DAX_DATATYPE_SIZE + 1) * DAX_DATATYPE_SIZE;
+        new_datatype = realloc(ds->datatypes, newsize * sizeof(datatype));
         if(new_datatype != NULL) {
             ds->datatypes = new_datatype;
             /* Set both pointers to NULL */
-            for(n = ds->datatype_size; n < ds->datatype_size + DAX_DATATYPE_SIZE; n++) {
+            for(n = ds->datatype_size; n < newsize; n++) {
                 ds->datatypes[n].name = NULL;
                 ds->datatypes[n].members = NULL;
             }
-            ds->datatype_size += DAX_DATATYPE_SIZE;
+            ds->datatype_size = newsize;
         } else {
-            return ERR_ALLOC;
+            result = ERR_ALLOC;
         }
     }
-
-    /* At this point we should have the spot for the datatype */
-    str = strtok_r(typedesc, ":", &last);
-    if(str == NULL) {
-        dax_log(DAX_LOG_ERROR, "add_cdt_to_cache(): Something is seriously wrong with the string");
-        return ERR_ARG;
-    }
-    result = _insert_type(ds, index, str);
-
-    while( (str = strtok_r(NULL, ":", &last)) ) {
-        result = _add_member_to_cache(ds, index, str);
-        if(result) return result;
+    if(result || ds->datatypes[index].name != NULL) {
+        if(members != NULL) _cdt_member_free(members);
+        free(name);
+        return result;
     }
+    /* At this point we should have the spot for the datatype */
+    ds->datatypes[index].members = members;
+    ds->datatypes[index].name = name;
     //DF("add_cdt_to_cache() type = 0x%X, name = %s", type, typedesc);
     return 0;
 }
@@ -316,7 +312,10 @@ dax_cdt_member(dax_state *ds, dax_cdt *cdt, char *name, tag_type type, unsigned
 
     /* Assign values */
     new->name = strdup(name);
-    if(new->name == NULL) return ERR_ALLOC;
+    if(new->name == NULL) {
+        free(new);
+        return ERR_ALLOC;
+    }
     new->type = type;
     new->count = count;
     new->next = NULL;
@@ -330,9 +329,14 @@ dax_cdt_member(dax_state *ds, dax_cdt *cdt, char *name, tag_type type, unsigned
 
 static void
 _cdt_member_free(cdt_member *member) {
-    if(member->next != NULL) _cdt_member_free(member->next);
-    if(member->name != NULL) free(member->name);
-    free(member);
+    cdt_member *next;
+
+    while(member != NULL) {
+        next = member->next;
+        if(member->name != NULL) free(member->name);
+        free(member);
+        member = next;
+    }
 }
 
 /*!
@@ -351,6 +355,20 @@ dax_cdt_free(dax_cdt *cdt) {
 }
 
 
+/* Search the cache for the given type */
+static tag_type
+_find_type(dax_state *ds, char *type)
+{
+    unsigned int n;
+
+    for(n = 0; n < ds->datatype_size; n++) {
+        if(ds->datatypes[n].name != NULL && !strcasecmp(type, ds->datatypes[n].name)) {
+            return CDT_TO_TYPE(n);
+        }
+    }
+    return 0;
+}
+
 /*!
  * Find the data type of the given name and return it's numeric ID.
  * both base data types and compound data types can be found with
@@ -363,7 +381,7 @@ dax_cdt_free(dax_cdt *cdt) {
 tag_type
 dax_string_to_type(dax_state *ds, char *type)
 {
-    int result, n;
+    tag_type t;
 
     if(type == NULL) return 0;
     if(!strcasecmp(type, "BOOL"))  return DAX_BOOL;
@@ -383,28 +401,16 @@ dax_string_to_type(dax_state *ds, char *type)
     if(!strcasecmp(type, "ULINT")) return DAX_ULINT;
     if(!strcasecmp(type, "LREAL")) return DAX_LREAL;
 
+    pthread_mutex_lock(&ds->lock);
     /* See if we already have it in the cache */
-    for(n = 0; n<ds->datatype_size; n++) {
-        if(ds->datatypes[n].name != NULL && !strcasecmp(type, ds->datatypes[n].name)) {
-            return CDT_TO_TYPE(n);
-        }
-    }
-
+    t = _find_type(ds, type);
     /* If not go to the server for it */
-    result = dax_cdt_get(ds, 0, type);
-
-    if(result) {
-        return 0;
-    } else {
+    if(t == 0 && dax_cdt_get(ds, 0, type) == 0) {
         /* Search Again - It'll be there this time */
-        for(n = 0; n < ds->datatype_size; n++) {
-            if(ds->datatypes[n].name != NULL && !strcasecmp(type, ds->datatypes[n].name)) {
-                return CDT_TO_TYPE(n);
-            }
-        }
+        t = _find_type(ds, type);
     }
-    /* We should have found it by now.  If not return error */
-    return 0;
+    pthread_mutex_unlock(&ds->lock);
+    return t;
 }
 
 /*!
@@ -418,19 +424,15 @@ dax_string_to_type(dax_state *ds, char *type)
 const char *
 dax_type_to_string(dax_state *ds, tag_type type)
 {
-    int index;
+    datatype *dt;
+    char *name;
 
-    /* TODO: Could replace this with a call to get_cdt_pointer() */
     if(IS_CUSTOM(type)) {
-        index = CDT_TO_INDEX(type);
-        if(index < ds->datatype_size && ds->datatypes[index].name != NULL) {
-            return ds->datatypes[index].name;
-        } else {
-            if(!dax_cdt_get(ds, type, NULL)) {
-                return ds->datatypes[index].name;
-            }
-            return NULL;
-        }
+        pthread_mutex_lock(&ds->lock);
+        dt = get_cdt_pointer(ds, type, NULL);
+        name = dt ? dt->name : NULL;
+        pthread_mutex_unlock(&ds->lock);
+        return name;
     } else {
         switch (type) {
             case DAX_BOOL:
@@ -788,25 +790,28 @@ dax_cdt_iter(dax_state *ds, tag_type type, void *udata, void (*callback)(cdt_ite
     int index = 0;
 
     if(type == 0) { /* iterate through the custom types */
-        dt = get_cdt_pointer(ds, CDT_TO_TYPE(index), &result);
-
-        while(result == 0 || result == ERR_INUSE) {
+        while(1) {
+            pthread_mutex_lock(&ds->lock);
+            dt = get_cdt_pointer(ds, CDT_TO_TYPE(index), &result);
+            if(dt != NULL) iter.name = dt->name;
+            pthread_mutex_unlock(&ds->lock);
+            if(result != 0 && result != ERR_INUSE) break;
             if(result == 0) {
-                iter.name = dt->name;
                 iter.type = CDT_TO_TYPE(index);
                 iter.count = iter.byte = iter.bit = 0;
                 callback(iter, udata);
             }
             index++;
-            dt = get_cdt_pointer(ds, CDT_TO_TYPE(index), &result);
         }
     } else { /* iterate over the members */
+        pthread_mutex_lock(&ds->lock);
         dt = get_cdt_pointer(ds, type, &result);
+        this = dt ? dt->members : NULL;
+        pthread_mutex_unlock(&ds->lock);
         if(dt == NULL) {
             return result;
         }
 
-        this = dt->members;
         while(this != NULL) {
             iter.name = this->name;
             iter.type = this->type;
@@ -856,11 +861,13 @@ dax_cdt_member_count(dax_state *ds, tag_type type)
     cdt_member *this;
     int count = 0;
 
+    pthread_mutex_lock(&ds->lock);
     dt = get_cdt_pointer(ds, type, &result);
+    this = dt ? dt->members : NULL;
+    pthread_mutex_unlock(&ds->lock);
     if(dt == NULL) {
         return result;
     }
-    this = dt->members;
     while(this != NULL) {
         count++;
         this = this->next;
diff --git a/src/lib/libdax.h b/src/lib/libdax.h
index b94d855..20d0217 100644
--- a/src/lib/libdax.h
+++ b/src/lib/libdax.h
@@ -115,6 +115,7 @@ struct dax_state {
     int cache_count;       /* How many nodes we actually have */
     datatype *datatypes;
     unsigned int datatype_size;
+    int cdt_depth;         /* How deep we are in retrieving nested datatypes */
     pthread_mutex_t lock;
     pthread_t connection_thread;
     int thread_running;      /* Set if connection_thread needs to be joined */
diff --git a/src/lib/libinit.c b/src/lib/libinit.c
index bae6579..5d6721f 100644
--- a/src/lib/libinit.c
+++ b/src/lib/libinit.c
@@ -19,6 +19,7 @@
  */
 
 
+#define _XOPEN_SOURCE 600
 #include <libdax.h>
 #include <libcommon.h>
 
@@ -39,6 +40,8 @@ dax_state *
 dax_init(const char *name)
 {
     dax_state *ds;
+    pthread_mutexattr_t attr;
+
     ds = malloc(sizeof(dax_state));
     if(ds == NULL) return NULL;
 
@@ -61,6 +64,7 @@ dax_init(const char *name)
     /* datatype list */
     ds->datatypes = NULL;
     ds->datatype_size = 0;
+    ds->cdt_depth = 0;
     /* Event list array */
     ds->events = malloc(sizeof(event_db));
     if(ds->events == NULL) {
@@ -82,8 +86,13 @@ dax_init(const char *name)
     ds->emsg_queue_size = EVENT_QUEUE_SIZE;     /* Total size of the Event Message Queue */
     ds->emsg_queue_count = 0;    /* number of entries in the event message queue */
     ds->disconnect_callback = NULL;
-    /* Initialize locks and condition variables */
-    pthread_mutex_init(&ds->lock, NULL);
+    /* Initialize locks and condition variables.  The main lock is recursive because
+     * many of the functions that need it have to look up data types while they have it
+     * and that may have to send a message to the server. */
+    pthread_mutexattr_init(&attr);
+    pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_RECURSIVE);
+    pthread_mutex_init(&ds->lock, &attr);
+    pthread_mutexattr_destroy(&attr);
     pthread_mutex_init(&ds->event_lock, NULL);
     pthread_mutex_init(&ds->msg_lock, NULL);
     pthread_cond_init(&ds->event_cond, NULL);
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 3b4fae4..2820d59 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -556,9 +556,6 @@ dax_disconnect(dax_state *ds)
     return result;
 }
 
-/* Not yet implemented */
-
-
 /*!
  * Adds a tag to the tag server.
  * @param ds The pointer to the dax state object
@@ -662,10 +659,13 @@ dax_tag_del(dax_state* ds, tag_index index)
 static int
 _parse_tag(dax_tag *tag, char *buff, size_t size)
 {
+    char *end;
     size_t len;
 
     if(size <= 14) return ERR_MSG_BAD;
-    len = strnlen(&buff[14], size - 14);
+    end = memchr(&buff[14], '\0', size - 14);
+    if(end == NULL) return ERR_MSG_BAD;
+    len = end - &buff[14];
     if(len > DAX_TAGNAME_SIZE) return ERR_MSG_BAD;
     tag->idx = stom_dint(*((int32_t *)&buff[0]));
     tag->type = stom_udint(*((uint32_t *)&buff[4]));
-- 
2.43.0


From b2cb03b0d641332e783fef43df05951f8e8b6dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:44 +0000
Subject: [PATCH 19/64] fix: client library: compute tag handles bit by bit

Indices outside of the tag, members after BOOLs, bits of a byte beyond
its size and malformed expressions all gave handles to the wrong data.
---
 src/lib/libcdt.c | 491 ++++++++++++++++++-----------------------------
 1 file changed, 184 insertions(+), 307 deletions(-)

diff --git a/src/lib/libcdt.c b/src/lib/libcdt.c
index 6909e1e..9c072f4 100644
--- a/src/lib/libcdt.c
+++ b/src/lib/libcdt.c
@@ -21,6 +21,8 @@
 #include <libdax.h>
 #include <libcommon.h>
 #include <ctype.h>
+#include <limits.h>
+#include <stdarg.h>
 
 /* This defines the starting size of the datatype array.
  * It is also the amount that the datatype array will
@@ -500,237 +502,158 @@ _split_tagname(char *name)
 static inline int
 _get_index(char *str)
 {
-    int i, k, len, index;
-    len = strlen(str);
-    for(i = 0; i < len && str[i] != '['; i++);
-    if(i < len) {
-        str[i] = '\0'; /* To end the string */
-        for(k = i+1; k < len && str[k] != ']'; k++) {
-            if(str[k] < '0' || str[k] > '9') return ERR_ARG;
-        }
-        index = atoi(str + i + 1);
+    long index = 0;
+    char *this;
+
+    this = strchr(str, '[');
+    if(this == NULL) return ERR_NOTFOUND;
+    *this++ = '\0'; /* To end the string */
+    if(*this == ']') return ERR_ARG; /* Nothing there */
+    while(*this >= '0' && *this <= '9') {
+        index = index * 10 + (*this++ - '0');
+        if(index > INT_MAX) return ERR_2BIG;
+    }
+    /* There should be nothing but the ']' left */
+    if(this[0] != ']' || this[1] != '\0') return ERR_ARG;
+    return index;
+}
+
+/* Fill in the handle for 'count' items of the given type at the given bit position */
+static int
+_fill_handle(dax_state *ds, tag_handle *h, tag_type type, int64_t pos, int count)
+{
+    int64_t size;
+
+    if(type == DAX_BOOL) {
+        size = (pos % 8 + count - 1) / 8 + 1;
     } else {
-        index = ERR_NOTFOUND;
+        size = (int64_t)dax_get_typesize(ds, type) * count;
     }
-    return index;
+    if(size <= 0 || size > INT_MAX || pos / 8 > INT_MAX) return ERR_2BIG;
+    h->byte = pos / 8;
+    h->bit = pos % 8;
+    h->type = type;
+    h->size = size;
+    h->count = count;
+    return 0;
 }
 
 /* called when a bit index is found in the tag string.  i.e. tagname.3.  The
  * function determines if all is okay and if so it finishes the handle definition
- * and returns 0 otherwise it returns an error */
+ * and returns 0 otherwise it returns an error.  'pos' is the bit position of the
+ * item that the digit refers to */
 static int
-_parse_bit_index(dax_state *ds, tag_type type, tag_handle *h, char *digit, int index, int count)
+_parse_bit_index(dax_state *ds, tag_type type, tag_handle *h, char *digit, int64_t pos, int count)
 {
     char *endptr;
-    int size;
+    long bit, size;
 
     if(type == DAX_BOOL || type == DAX_TIME ||
        type == DAX_REAL || type == DAX_LREAL ||
        IS_CUSTOM(type)) {
            return ERR_BADTYPE;
        }
-    if(index < 0) index = 0;
-    h->bit = strtol(digit, &endptr, 10);
+    bit = strtol(digit, &endptr, 10);
     /* This indicates that there is extra text past the number */
     if(endptr[0] != '\0') {
         return ERR_ARG;
     }
     size = dax_get_typesize(ds, type);
-    if(h->bit > size*8) {
-        return ERR_2BIG;
-    }
     if(count == 0) count = 1;
-    if((h->bit + count) > size*8) {
+    if(bit >= size*8 || (bit + count) > size*8) {
         return ERR_2BIG;
     }
-    h->byte += size * index + (h->bit / 8);
-    h->bit = h->bit % 8;
-    h->type = DAX_BOOL;
-    h->size = (h->bit + count - 1) / 8 - (h->bit / 8) + 1;
-    h->count = count;
-    return 0;
-}
-
-static int
-_parse_next_member(dax_state *ds, tag_type lasttype, tag_handle *h, char *str, int count)
-{
-    int index, result, size;
-    char *name = str;
-    char *nextname;
-    cdt_member *this;
-
-    if(name == NULL) return ERR_ARG;
-
-    nextname = _split_tagname(str);
-
-    index = _get_index(name);
-    if(index < 0 && index != ERR_NOTFOUND) {
-        return index;
-    }
-
-    if(dax_type_to_string(ds, lasttype) == NULL) {
-        return ERR_NOTFOUND; /* This is a serious problem here */
-    }
-
-    this = ds->datatypes[CDT_TO_INDEX(lasttype)].members;
-
-    while(this != NULL) {
-        /* Start by adding all the bytes of the members before the
-         * one we are looking for */
-        if(strcmp(name, this->name)) {
-            if(this->type == DAX_BOOL) {
-                h->bit += this->count;
-                if(h->bit > 7) {
-                    h->byte += h->bit / 8;
-                    h->bit %= 8;
-                }
-            } else {
-                /* Gotta step up one if the last member was a bool */
-                if(h->type == DAX_BOOL && h->bit > 0) { h->byte++; }
-                h->byte += dax_get_typesize(ds, this->type) * this->count;
-                h->bit = 0;
-            }
-            h->type = this->type; /* We need to keep track of the last type */
-
-            this = this->next;
-        } else { /* Here we have found it */
-            break;
-        }
-
-    }
-    if(this == NULL) return ERR_NOTFOUND;
-
-    if(nextname) { /* Not the last item */
-        if(isdigit(nextname[0])) {
-            if(this->count > 1 && index <0) {
-                return ERR_ARG;
-            }
-            return _parse_bit_index(ds, this->type, h, nextname, index, count);
-        }
-        result = _parse_next_member(ds, this->type, h, nextname, count);
-        if(result) return result;
-        if(index != ERR_NOTFOUND) {
-            if(count == 0) count = 1;
-            if((index + count) > this->count) return ERR_2BIG;
-            h->byte += dax_get_typesize(ds, this->type) * index;
-        }
-    } else { /* We are the last item */
-        if(h->type == DAX_BOOL && this->type != DAX_BOOL && h->bit > 0) {
-            h->byte++;
-            h->bit = 0;
-        }
-
-        h->type = this->type;
-        if(index != ERR_NOTFOUND){
-            if(count == 0 ) count = 1;
-            if((index + count) > this->count ) return ERR_2BIG;
-            if(this->type == DAX_BOOL) {
-                h->byte += index / 8;
-                h->bit += index % 8;
-                /* Two bits across the byte boundry require two bytes */
-                h->size = (h->bit + count - 1) / 8 - (h->bit / 8) + 1;
-                h->count = count;
-            } else {
-                size = dax_get_typesize(ds, this->type);
-                h->size = size * count;
-                h->byte += size * index;
-                h->bit = 0;
-                h->count = count;
-            }
-        } else { /* This is where no index was given */
-            if(count > this->count) return ERR_2BIG;
-            if(count == 0) count = this->count;
-            if(this->type == DAX_BOOL) {
-                h->size = (h->bit + count - 1) / 8 - (h->bit / 8) + 1;
-                h->count = count;
-            } else {
-                size = dax_get_typesize(ds, this->type);
-                h->bit = 0;
-                h->size = size * count;
-                h->count = count;
-            }
-        }
-    }
-    return 0;
+    return _fill_handle(ds, h, DAX_BOOL, pos + bit, count);
 }
 
-/* Wrapping the function to take advantage of the variable length array
- * feature of C for the tagname so we don't have to worry about malloc */
+/* Parses the tag string.  'str' will be modified. The position of the data that we
+ * are looking for is kept as the number of bits from the beginning of the tag as we
+ * work our way through the members. */
 static int
-_dax_tag_handle(dax_state *ds, tag_handle *h, char *str, int strlen, int count)
+_parse_handle(dax_state *ds, tag_handle *h, char *str, int count)
 {
-    int result, index, size;
+    int result, index, items, size;
+    int64_t pos = 0;
+    tag_type type;
     dax_tag tag;
-    char tagname[strlen]; /* Hack alert */
-    char *membername;
+    datatype *dtype;
+    cdt_member *this = NULL;
+    char *name;
 
-    strcpy(tagname, str);
-    membername = _split_tagname(tagname);
-    index = _get_index(tagname); /* Get array index inside [] */
+    if(count < 0) return ERR_ARG;
+    name = str;
+    str = _split_tagname(name);
+    index = _get_index(name); /* Get array index inside [] */
     if(index < 0 && index != ERR_NOTFOUND) {
         return index;
     }
 
-    result = dax_tag_byname(ds, &tag, tagname);
+    result = dax_tag_byname(ds, &tag, name);
     if(result) return ERR_NOTFOUND;
     h->index = tag.idx; /* This index is the database index */
+    type = tag.type;
+    items = tag.count;
+
+    while(str != NULL) { /* This is not the last item */
+        if(index != ERR_NOTFOUND && index >= items) return ERR_2BIG;
+        size = dax_get_typesize(ds, type);
+        if(size <= 0) return ERR_NOTFOUND;
+        if(index > 0) pos += (int64_t)size * index * 8;
 
-    if(membername) {
         /* This is the case where the .x is a number referring to a bit */
-        if(isdigit(membername[0])) {
-            if(tag.count > 1 && index < 0) {
+        if(isdigit((unsigned char)str[0])) {
+            if(items > 1 && index == ERR_NOTFOUND) {
                 return ERR_ARG;
             }
-            return _parse_bit_index(ds, tag.type, h, membername, index, count);
+            return _parse_bit_index(ds, type, h, str, pos, count);
         }
-        else if(!IS_CUSTOM(tag.type)) {
-            dax_log(DAX_LOG_ERROR, "Tag %s, has no member %s", tagname, membername);
+        if(!IS_CUSTOM(type)) {
+            dax_log(DAX_LOG_ERROR, "%s, has no member %s", name, str);
             return ERR_ARG;
         }
-        if(tag.count > 1 && index == ERR_NOTFOUND) {
-            dax_log(DAX_LOG_ERROR, "Ambiguous reference in tag %s", tagname);
+        if(this == NULL && items > 1 && index == ERR_NOTFOUND) {
+            dax_log(DAX_LOG_ERROR, "Ambiguous reference in tag %s", name);
             return ERR_ARBITRARY;
         }
-        result = _parse_next_member(ds, tag.type, h, membername, count);
-        if(result) return result;
-        if(index != ERR_NOTFOUND) {
-            h->byte += dax_get_typesize(ds, tag.type) * index;
+        /* Find the next member */
+        name = str;
+        str = _split_tagname(name);
+        index = _get_index(name);
+        if(index < 0 && index != ERR_NOTFOUND) {
+            return index;
         }
-    } else {
-        h->type = tag.type;
-        if(index != ERR_NOTFOUND){
-            if(count == 0 ) count = 1;
-            if((index + count) > tag.count ) return ERR_2BIG;
-            if(tag.type == DAX_BOOL) {
-                h->byte = index / 8;
-                h->bit = index % 8;
-                h->size = (h->bit + count - 1) / 8 - (h->bit / 8) + 1;
-                h->count = count;
-            } else {
-                size = dax_get_typesize(ds, tag.type);
-                h->size = size * count;
-                h->byte = size * index;
-                h->bit = 0;
-                h->count = count;
+        dtype = get_cdt_pointer(ds, type, NULL);
+        if(dtype == NULL) return ERR_NOTFOUND; /* This is a serious problem here */
+        for(this = dtype->members; this != NULL; this = this->next) {
+            if(this->type != DAX_BOOL) {
+                pos = (pos + 7) / 8 * 8; /* Align to the next byte */
             }
-        } else { /* This is where no index [] was given */
-            if(count > tag.count) return ERR_2BIG;
-            if(count == 0) count = tag.count;
-            if(tag.type == DAX_BOOL) {
-                h->byte = 0;
-                h->bit = 0;
-                h->size = (h->bit + count - 1) / 8 - (h->bit / 8) + 1;
-                h->count = count;
+            if(strcmp(name, this->name) == 0) break;
+            /* Add all the members before the one we are looking for */
+            if(this->type == DAX_BOOL) {
+                pos += this->count;
             } else {
-                size = dax_get_typesize(ds, tag.type);
-                h->size = size * count;
-                h->byte = 0;
-                h->bit = 0;
-                h->count = count;
+                pos += (int64_t)dax_get_typesize(ds, this->type) * this->count * 8;
             }
         }
+        if(this == NULL) return ERR_NOTFOUND;
+        type = this->type;
+        items = this->count;
+    }
+    /* We are the last item */
+    if(index != ERR_NOTFOUND) {
+        if(count == 0) count = 1;
+        if((int64_t)index + count > items) return ERR_2BIG;
+        if(type == DAX_BOOL) {
+            pos += index;
+        } else {
+            pos += (int64_t)dax_get_typesize(ds, type) * index * 8;
+        }
+    } else { /* This is where no index was given */
+        if(count > items) return ERR_2BIG;
+        if(count == 0) count = items;
     }
-    return 0;
+    return _fill_handle(ds, h, type, pos, count);
 }
 
 /*!
@@ -752,11 +675,19 @@ int
 dax_tag_handle(dax_state *ds, tag_handle *h, char *str, int count)
 {
     int result;
+    char *tagname;
+
     if(h == NULL || ds == NULL || str == NULL) {
         return ERR_ARG;
     }
     bzero(h, sizeof(tag_handle)); /* Initialize h */
-    result = _dax_tag_handle(ds, h, str, strlen(str) + 1, count);
+    /* The parser modifies the string so it needs a copy */
+    tagname = strdup(str);
+    if(tagname == NULL) return ERR_ALLOC;
+    pthread_mutex_lock(&ds->lock);
+    result = _parse_handle(ds, h, tagname, count);
+    pthread_mutex_unlock(&ds->lock);
+    free(tagname);
     if(result) {
         bzero(h, sizeof(tag_handle)); /* Reset h in case of error */
     }
@@ -878,92 +809,80 @@ dax_cdt_member_count(dax_state *ds, tag_type type)
 
 #define FQN_TAG_SIZE 1024
 
-/* Used to carry data around for the fqn cdt iteration callback function */
-struct _fqn_data {
-    dax_state *ds;
-    cdt_iter member;
-    uint8_t done;
-    int byte_position;   /* current position within the cdt in bytes*/
-    int bit_position;    /* current position within the cdt in bits*/
-    int final_byte;      /* The final position in bytes*/
-    int final_bit;       /* The final position in bits*/
-
-};
-
-static void _fqn_callback(cdt_iter member, void *udata)
+/* Appends to the string.  Returns non-zero if it won't fit. */
+static int
+_fqn_append(char *str, const char *format, ...)
 {
-    int member_size;
-    struct _fqn_data *data = (struct _fqn_data *)udata;
-
-
-    if(! data->done) { /* We use this to indicate whether we've found it or not */
-        if(member.type == DAX_BOOL) {
-            data->byte_position += member.count/8;
-            data->bit_position += member.count % 8;
-            if((data->byte_position * 8 + data->bit_position) > (data->final_byte * 8 + data->final_bit)) {
-                    /* We found it so stop looking and set the member to the struct */
-                    data->member = member;
-                    data->done = 1;
-                    /* Rewind back to before this call which would be the beginning position */
-                    data->byte_position -= member.count/8;
-                    data->bit_position -= member.count % 8;
-            }
-        } else { /* Not BOOL */
-            if(data->bit_position > 0) { /* If we have any bits left over from previous BOOLs */
-                data->bit_position = 0;
-                data->byte_position++;
-            }
-            member_size = member.count * dax_get_typesize(data->ds, member.type);
-            data->byte_position += member_size;
-            if(data->byte_position > data->final_byte) {
-                data->member = member;
-                data->done = 1;
-                data->byte_position -= member_size;
-            }
-        }
+    va_list val;
+    size_t len = strlen(str);
+    int result;
 
-    }
+    va_start(val, format);
+    result = vsnprintf(&str[len], FQN_TAG_SIZE - len, format, val);
+    va_end(val);
+    return result < 0 || result >= FQN_TAG_SIZE - len;
 }
 
-static void _fqn_cdt_member(dax_state *ds, char *str, tag_type type, struct _fqn_data *data)
+/* Builds the name one member at a time until we get to the one that
+ * the handle represents. */
+static int
+_fqn(dax_state *ds, tag_handle h, char *str)
 {
-    int i;
-    char temp[64];
-    data->done = 0;
-    dax_cdt_iter(ds, type, data, _fqn_callback);
-
-    if(data->member.count > 1) {
-        if(data->member.type == DAX_BOOL) {
-            i = (data->final_byte - data->byte_position)*8 + (data->final_bit - data->bit_position);
-        } else {
-            i = (data->final_byte - data->byte_position) / dax_get_typesize(ds, data->member.type);
-            data->byte_position += i * dax_get_typesize(ds, data->member.type);
+    dax_tag tag;
+    tag_type type;
+    datatype *dtype;
+    cdt_member *this = NULL;
+    int64_t final, pos = 0, start, end, size; /* These are all in bits */
+    int items, i;
+
+    if(dax_tag_byindex(ds, &tag, h.index)) return -1;
+    type = tag.type & ~DAX_QUEUE;
+    h.type &= ~DAX_QUEUE;
+    items = tag.count;
+    final = (int64_t)h.byte * 8 + h.bit;
+    if(_fqn_append(str, "%s", tag.name)) return -1;
+
+    while(1) {
+        size = 1;
+        if(type != DAX_BOOL) {
+            size = (int64_t)dax_get_typesize(ds, type) * 8;
+            if(size <= 0) return -1;
         }
-        snprintf(temp, FQN_TAG_SIZE, ".%s[%d]", data->member.name, i);
-        strncat(str, temp, FQN_TAG_SIZE);
-    } else {
-        strncat(str, ".", FQN_TAG_SIZE);
-        strncat(str, data->member.name, FQN_TAG_SIZE);
-    }
-    /* see if we need to go any further */
-    if(data->byte_position != data->final_byte || data->bit_position != data->final_bit) {
-        /* If the found member is custom then we have to dig some more */
-        if(IS_CUSTOM(data->member.type)) {
-            /* do it again; */
-            //data->byte_position += data->member.count * dax_get_typesize(ds, data->member.type);
-            _fqn_cdt_member(ds, str, data->member.type, data);
-        } else {
-            // do some other stuff
-            /* BOOLs should have already been handled with a [x] above, so here we add the .x to the end
-               if we have any bits left */
-            if(data->member.type != DAX_BOOL) {
-                i = (data->final_byte - data->byte_position)*8 + (data->final_bit - data->bit_position);
-                snprintf(temp, FQN_TAG_SIZE, ".%d", i);
-                strncat(str, temp, FQN_TAG_SIZE);
+        i = (final - pos) / size; /* Which item of the array */
+        if(i >= items) return -1;
+        pos += size * i;
+        /* We always add the index to array members but for the tag itself we leave
+         * it out if we have the whole thing or the beginning of a BOOL */
+        if(items > 1 && (this != NULL || final > 0 || (type != DAX_BOOL &&
+                         (h.type != type || h.count != items)))) {
+            if(_fqn_append(str, "[%d]", i)) return -1;
+        }
+        if(h.type == type) return 0;
+        if(!IS_CUSTOM(type)) {
+            /* The only thing left would be the bits */
+            if(h.type != DAX_BOOL) return -1;
+            return _fqn_append(str, ".%d", (int)(final - pos));
+        }
+        /* Find the member */
+        dtype = get_cdt_pointer(ds, type, NULL);
+        if(dtype == NULL) return -1;
+        start = end = pos;
+        for(this = dtype->members; this != NULL; this = this->next) {
+            if(this->type == DAX_BOOL) {
+                start = end;
+                end += this->count;
+            } else {
+                start = (end + 7) / 8 * 8;
+                end = start + (int64_t)dax_get_typesize(ds, this->type) * this->count * 8;
             }
+            if(final < end) break;
         }
+        if(this == NULL || final < start) return -1;
+        if(_fqn_append(str, ".%s", this->name)) return -1;
+        pos = start;
+        type = this->type;
+        items = this->count;
     }
-
 }
 
 /*!
@@ -981,54 +900,12 @@ static void _fqn_cdt_member(dax_state *ds, char *str, tag_type type, struct _fqn
 char *
 dax_fqn(dax_state *ds, tag_handle h) {
     char s[FQN_TAG_SIZE];
-    char d[64];
-    char *str = NULL;
-    dax_tag tag;
     int result;
-    int offset;
-    int i;
-    int ts;
-
-    bzero(s, FQN_TAG_SIZE);
-    result = dax_tag_byindex(ds, &tag, h.index);
-    if(result) { return NULL; }
-
-    if(tag.type == DAX_BOOL) {
-        if(h.byte > 0 || h.bit > 0) {
-            int bit = h.byte * 8 + h.bit;
-            snprintf(s, FQN_TAG_SIZE, "%s[%d]", tag.name, bit);
-        } else {
-            strncpy(s, tag.name, FQN_TAG_SIZE);
-        }
-    } else {
-        ts = dax_get_typesize(ds, tag.type);
-        assert(ts != 0);
-        if((tag.count > 1 && ( h.byte > 0 ||  h.count != tag.count))) {
-            i = h.byte / ts;
-            snprintf(s, FQN_TAG_SIZE, "%s[%d]", tag.name, i);
-        } else {
-            i = 0;
-            strncpy(s, tag.name, FQN_TAG_SIZE);
-        }
-        offset = i*ts;
-
-        if( IS_CUSTOM(tag.type) && h.type != tag.type) {
-            struct _fqn_data data;
-            data.ds = ds;
-            data.byte_position = offset;
-            data.bit_position = 0;
-            data.final_byte = h.byte;
-            data.final_bit = h.bit;
-
-            _fqn_cdt_member(ds, s, tag.type, &data);
-        } else if(h.type == DAX_BOOL) {
-            snprintf(d, 64, ".%d", h.bit + (h.byte - offset)*8);
-            strncat(s, d, FQN_TAG_SIZE);
-        }
-    }
 
-    str = malloc(strlen(s) + 1);
-    if(str != NULL ) strncpy(str, s, strlen(s) + 1);
-
-    return str;
+    s[0] = '\0';
+    pthread_mutex_lock(&ds->lock);
+    result = _fqn(ds, h, s);
+    pthread_mutex_unlock(&ds->lock);
+    if(result) return NULL;
+    return strdup(s);
 }
\ No newline at end of file
-- 
2.43.0


From 277aac42a52aaa152e6245fef8e92c49848089db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:44 +0000
Subject: [PATCH 20/64] fix: client library: events keep their own data and
 comparison value

DWORD and TIME event values were cut to 16 bits, and event data was shared
between the dispatching thread and the rest of the program.
---
 src/lib/libcdt.c   |  17 +++++++
 src/lib/libdax.h   |  13 +++---
 src/lib/libevent.c | 112 +++++++++++++++++++++++++++++++++------------
 src/lib/libinit.c  |  11 ++---
 src/lib/libmsg.c   |  14 ++++--
 5 files changed, 118 insertions(+), 49 deletions(-)

diff --git a/src/lib/libcdt.c b/src/lib/libcdt.c
index 9c072f4..1045fcf 100644
--- a/src/lib/libcdt.c
+++ b/src/lib/libcdt.c
@@ -172,6 +172,23 @@ get_cdt_pointer(dax_state *ds, tag_type type, int *error)
     }
 }
 
+/* Forget all of the datatypes that we know about */
+void
+free_datatypes(dax_state *ds)
+{
+    unsigned int n;
+
+    pthread_mutex_lock(&ds->lock);
+    for(n = 0; n < ds->datatype_size; n++) {
+        free(ds->datatypes[n].name);
+        if(ds->datatypes[n].members != NULL) _cdt_member_free(ds->datatypes[n].members);
+    }
+    free(ds->datatypes);
+    ds->datatypes = NULL;
+    ds->datatype_size = 0;
+    pthread_mutex_unlock(&ds->lock);
+}
+
 /* Adds the given type to the array cache.  'type' is the type id
  * and typedesc is the type description string that would be generated
  * by a call to serialize_datatype() in the server.  ds->lock should be
diff --git a/src/lib/libdax.h b/src/lib/libdax.h
index 20d0217..8c3dc23 100644
--- a/src/lib/libdax.h
+++ b/src/lib/libdax.h
@@ -125,11 +125,10 @@ struct dax_state {
     event_db *events;      /* Array of events stored for this connection */
     int event_size;        /* Current size of the events array */
     int event_count;       /* Total number of events stored in the array */
-    int event_data_size;   /* Size of the event data that is stored here */
-    char *event_data;      /* Pointer to the event data that was returned */
     dax_message **emsg_queue; /* Event Message FIFO Queue */
     int emsg_queue_size;     /* Total size of the Event Message Queue */
     int emsg_queue_count;    /* number of entries in the event message queue */
+    unsigned int events_lost; /* number of events that didn't fit in the queue */
     dax_message *last_msg;   /* The last message received on the socket */
     unsigned int late_count; /* Number of responses that nobody is waiting for any longer */
     void (*disconnect_callback)(int result);
@@ -156,10 +155,8 @@ dax_int stom_int(dax_int);
 dax_uint stom_uint(dax_uint);
 
 /* 32 Bit conversion functions */
-#define mtos_dword mtos_uint
-#define stom_dword stom_uint
-#define mtos_time mtos_uint
-#define stom_time stom_uint
+#define mtos_dword mtos_udint
+#define stom_dword stom_udint
 
 dax_dint mtos_dint(dax_dint);
 dax_udint mtos_udint(dax_udint);
@@ -172,6 +169,8 @@ dax_real stom_real(dax_real);
 /* 64 bit Conversions */
 #define mtos_lword mtos_ulint
 #define stom_lword stom_ulint
+#define mtos_time mtos_lint
+#define stom_time stom_lint
 
 dax_lint mtos_lint(dax_lint);
 dax_ulint mtos_ulint(dax_ulint);
@@ -209,6 +208,8 @@ dax_message *pop_event(dax_state *ds);
 int add_event(dax_state *ds, dax_id id, void *udata, void (*callback)(dax_state *ds, void *udata),
               void (*free_callback)(void *));
 int del_event(dax_state *ds, dax_id id);
+void clear_events(dax_state *ds);
+void free_datatypes(dax_state *ds);
 int exec_event(dax_state *ds, dax_id id);
 
 int group_read_format(dax_state *ds, tag_group_id *id, uint8_t *buff);
diff --git a/src/lib/libevent.c b/src/lib/libevent.c
index 0fdbd3c..35a1e8f 100644
--- a/src/lib/libevent.c
+++ b/src/lib/libevent.c
@@ -49,6 +49,8 @@ dax_event_string_to_type(char *string) {
         return EVENT_LESS;
     } else if(!strcasecmp(string, "DEADBAND")) {
         return EVENT_DEADBAND;
+    } else if(!strcasecmp(string, "DELETED")) {
+        return EVENT_DELETED;
     } else {
         return 0;
     }
@@ -79,6 +81,8 @@ dax_event_type_to_string(int type) {
             return "LESS";
         case EVENT_DEADBAND:
             return "DEADBAND";
+        case EVENT_DELETED:
+            return "DELETED";
         default:
             return NULL;
     }
@@ -137,6 +141,39 @@ del_event(dax_state *ds, dax_id id)
     return ERR_NOTFOUND;
 }
 
+/* Forget about all of the events.  This is for when the connection
+ * that they belonged to is gone. */
+void
+clear_events(dax_state *ds)
+{
+    int n;
+
+    pthread_mutex_lock(&ds->lock);
+    for(n = 0; n < ds->event_count; n++) {
+        if(ds->events[n].free_callback) {
+            ds->events[n].free_callback(ds->events[n].udata);
+        }
+    }
+    ds->event_count = 0;
+    pthread_mutex_unlock(&ds->lock);
+
+    pthread_mutex_lock(&ds->event_lock);
+    for(n = 0; n < ds->emsg_queue_count; n++) {
+        free(ds->emsg_queue[n]);
+    }
+    ds->emsg_queue_count = 0;
+    pthread_mutex_unlock(&ds->event_lock);
+}
+
+/* This is the data of the event that this thread is currently handling */
+struct event_data {
+    dax_state *ds;
+    char *data;
+    int size;
+};
+
+static __thread struct event_data _event_data = {NULL, NULL, 0};
+
 /* This function deals with a single event.
  *
  * @param ds Pointer to the dax state object
@@ -149,29 +186,44 @@ del_event(dax_state *ds, dax_id id)
 int
 dispatch_event(dax_state *ds, dax_message *msg, dax_id *id)
 {
-    int n;
+    int n, found = 0;
     uint32_t idx, eid;
+    event_db event;
+    struct event_data last;
 
+    if(msg->size < 8) {
+        dax_log(DAX_LOG_ERROR, "dax_event_dispatch() received a malformed event");
+        return ERR_MSG_BAD;
+    }
     idx =      ntohl(*(uint32_t *)(&msg->data[0]));
     eid =      ntohl(*(uint32_t *)(&msg->data[4]));
-    /* we just store the pointer to the message data in case the callback needs it
-     * This data can be retrieved in the callback by dax_event_get_data() */
-    ds->event_data = &msg->data[8];
-    ds->event_data_size = msg->size-8;
-    for(n = 0; n < ds->event_count; n ++) {
+    /* The callback can change the list of events and so can other threads so
+     * we need our own copy */
+    pthread_mutex_lock(&ds->lock);
+    for(n = 0; n < ds->event_count && !found; n++) {
         if(ds->events[n].idx == idx && ds->events[n].id == eid) {
-            if(ds->events[n].callback != NULL) {
-                ds->events[n].callback(ds, ds->events[n].udata);
-            }
-            if(id != NULL) {
-                id->id = eid;
-                id->index = idx;
-            }
-            ds->event_data = NULL; /* This indicates that the data is out of scope now */
-            return 0;
+            event = ds->events[n];
+            found = 1;
         }
     }
-    ds->event_data = NULL; /* This indicates that the data is out of scope now */
+    pthread_mutex_unlock(&ds->lock);
+    if(found) {
+        if(event.callback != NULL) {
+            /* we just store the pointer to the message data in case the callback needs it
+             * This data can be retrieved in the callback by dax_event_get_data() */
+            last = _event_data;
+            _event_data.ds = ds;
+            _event_data.data = &msg->data[8];
+            _event_data.size = msg->size - 8;
+            event.callback(ds, event.udata);
+            _event_data = last; /* The data is out of scope now */
+        }
+        if(id != NULL) {
+            id->id = eid;
+            id->index = idx;
+        }
+        return 0;
+    }
     dax_log(DAX_LOG_ERROR, "dax_event_dispatch() received an event that does not exist in database");
     return ERR_GENERIC;
 }
@@ -210,26 +262,25 @@ dax_event_wait(dax_state *ds, int timeout, dax_id *id)
     struct timespec ts;
     dax_message msg;
 
+    clock_gettime(CLOCK_REALTIME, &ts);
+    ts.tv_sec += timeout/1000;
+    ts.tv_nsec += timeout%1000 * 1000000L;
+    if(ts.tv_nsec >= 1000000000L) {
+        ts.tv_sec++;
+        ts.tv_nsec -= 1000000000L;
+    }
     pthread_mutex_lock(&ds->event_lock);
     while(ds->emsg_queue_count == 0) {
-        clock_gettime(CLOCK_REALTIME, &ts);
-        ts.tv_sec += timeout/1000;
-        ts.tv_nsec += timeout%1000 * 1e6;
-        if(ts.tv_nsec > 1e9) {
-            ts.tv_sec++;
-            ts.tv_nsec -= 1e9;
-        }
         if(timeout) {
             result = pthread_cond_timedwait(&ds->event_cond, &ds->event_lock, &ts);
         } else {
             result = pthread_cond_wait(&ds->event_cond, &ds->event_lock);
         }
-        if(result == ETIMEDOUT) {
+        if(result == ETIMEDOUT && ds->emsg_queue_count == 0) {
             pthread_mutex_unlock(&ds->event_lock);
             return ERR_TIMEOUT;
         }
-        assert(result == 0);
-
+        assert(result == 0 || result == ETIMEDOUT);
     }
     /* We should have a message once we get here */
     /* Pop the message off of the event queue before we dispatch
@@ -288,10 +339,11 @@ int
 dax_event_get_data(dax_state *ds, void* buff, int len) {
     int size;
 
-    size = MIN(len, ds->event_data_size);
-    if(ds->event_data == NULL) return ERR_DELETED;
-    if(ds->event_data_size == 0) return ERR_EMPTY;
+    if(_event_data.ds != ds || _event_data.data == NULL) return ERR_DELETED;
+    if(_event_data.size == 0) return ERR_EMPTY;
+    if(len < 0) return ERR_ARG;
+    size = MIN(len, _event_data.size);
 
-    memcpy(buff, ds->event_data, size);
+    memcpy(buff, _event_data.data, size);
     return size;
 }
diff --git a/src/lib/libinit.c b/src/lib/libinit.c
index 5d6721f..5b66332 100644
--- a/src/lib/libinit.c
+++ b/src/lib/libinit.c
@@ -77,8 +77,7 @@ dax_init(const char *name)
     ds->thread_running = 0;
     ds->disconnecting = 0;
     ds->error_code = 0;
-    ds->event_data = NULL;
-    ds->event_data_size = 0;
+    ds->events_lost = 0;
     ds->event_size = 1;
     ds->event_count = 0;
     /* Event Message FIFO Queue */
@@ -117,16 +116,12 @@ dax_init(const char *name)
 int
 dax_free(dax_state *ds)
 {
-    int n;
-
     stop_connection(ds);
+    clear_events(ds);
+    free_datatypes(ds);
     pthread_mutex_destroy(&ds->lock);
     free(ds->modulename);
-    /* TODO: gotta loop through and free the udata in the events. */
     free(ds->events);
-    for(n = 0; n < ds->emsg_queue_count; n++) {
-        free(ds->emsg_queue[n]);
-    }
     free(ds->emsg_queue);
     free(ds);
     return 0;
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 2820d59..f7dda50 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -356,7 +356,6 @@ _mod_register(dax_state *ds, char *name)
 static int
 _read_next_message(dax_state *ds, int fd)
 {
-    static unsigned int events_lost;
     dax_message *msg;
     int result, n;
 
@@ -378,9 +377,9 @@ _read_next_message(dax_state *ds, int fd)
     if(msg->msg_type & MSG_EVENT) { /* Events we store in the FIFO */
         pthread_mutex_lock(&ds->event_lock);
         if(ds->emsg_queue_count == ds->emsg_queue_size) {/* FIFO is full */
-            if(events_lost % 20 == 0) { /* We only log every 20 of these */
-                events_lost++;
-                dax_log(DAX_LOG_ERROR, "Event received from the server is lost.  Total = %u", events_lost);
+            ds->events_lost++;
+            if(ds->events_lost % 20 == 1) { /* We only log every 20 of these */
+                dax_log(DAX_LOG_ERROR, "Event received from the server is lost.  Total = %u", ds->events_lost);
             }
             free(ds->emsg_queue[0]); /* Free the top one */
             for(n = 0;n<ds->emsg_queue_size-1;n++) {
@@ -487,6 +486,10 @@ dax_connect(dax_state *ds)
 
     /* If we were connected before, make sure that is finished */
     stop_connection(ds);
+    /* The data types and the events that we know about are those
+     * of the server that we were connected to. */
+    clear_events(ds);
+    free_datatypes(ds);
 
     fd = _get_connection(ds);
     if(fd < 0) {
@@ -1295,7 +1298,8 @@ dax_event_add(dax_state *ds, tag_handle *h, int event_type, void *data,
     memcpy(&buff[20], &u_temp, 4);
     buff[24]=h->bit;                 /* Bit offset */
 
-    if(data != NULL) {
+    /* There isn't any data for the compound types */
+    if(data != NULL && !IS_CUSTOM(h->type)) {
         mtos_generic(h->type, &buff[25], data);
         size = 25 + TYPESIZE(h->type) / 8;
     } else {
-- 
2.43.0


From 2e376a0a951b4d1d9f9fce56685e6aa6b4a46933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:44 +0000
Subject: [PATCH 21/64] fix: client library: size of BOOL writes and masks,
 checks of override and map replies

---
 src/lib/libdata.c | 27 +++++++-----------------
 src/lib/libmsg.c  | 53 +++++++++++++++++++++++++++--------------------
 2 files changed, 39 insertions(+), 41 deletions(-)

diff --git a/src/lib/libdata.c b/src/lib/libdata.c
index 2e6c972..7c6bc52 100644
--- a/src/lib/libdata.c
+++ b/src/lib/libdata.c
@@ -365,6 +365,7 @@ dax_tag_read(dax_state *ds, tag_handle handle, void *data)
         bad data if another module updates the tag between reads.  If
         the size of the data type is larger than our maximum data size
         then we error out instead of risking bad data. */
+        if(type_size <= 0) return ERR_BADTYPE;
         if(type_size > MSG_DATA_SIZE) return ERR_2BIG;
         n = 0;
         while(tsize > 0) {
@@ -525,11 +526,6 @@ dax_tag_write(dax_state *ds, tag_handle handle, void *data)
 
     if(handle.type == DAX_BOOL && (handle.bit > 0 || handle.count % 8 )) {
         size = handle.size;
-        /* This takes care of the case where we have an even 8 bits but
-         * we are offset from zero so we need an exta byte */
-        if(handle.bit && !(handle.count % 8)) {
-            size++;
-        }
         mask = malloc(size);
         if(mask == NULL) return ERR_ALLOC;
         newdata = malloc(size);
@@ -551,14 +547,11 @@ dax_tag_write(dax_state *ds, tag_handle handle, void *data)
         /* Determine if the write needs to be broken up into multiple messages */
         if(handle.size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) {
             tsize = size;
-            type_size = dax_get_typesize(ds, handle.type);
-            if(type_size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) return ERR_2BIG;
             n = 0;
             while(tsize > 0) {
                 rsize = MIN(tsize, (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2);
-                rsize -= (rsize % type_size); /* This should break accross tag boundaries */
                 result = dax_mask(ds, handle.index, handle.byte+n, &((uint8_t *)newdata)[n], &mask[n], rsize);
-                if(result) return result;
+                if(result) break;
                 tsize -= rsize;
                 n += rsize;
             }
@@ -580,6 +573,7 @@ dax_tag_write(dax_state *ds, tag_handle handle, void *data)
         if(handle.size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)) {
             tsize = handle.size;
             type_size = dax_get_typesize(ds, handle.type);
+            if(type_size <= 0) return ERR_BADTYPE;
             if(type_size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)) return ERR_2BIG;
             n = 0;
             while(tsize > 0) {
@@ -619,11 +613,6 @@ dax_tag_mask(dax_state *ds, tag_handle handle, void *data, void *mask)
 
     if(handle.type == DAX_BOOL && (handle.bit > 0 || handle.count % 8 )) {
         size = handle.size;
-        /* This takes care of the case where we have an even 8 bits but
-         * we are offset from zero so we need an exta byte */
-        if(handle.bit && !(handle.count % 8)) {
-            size++;
-        }
         newmask = malloc(size);
         if(newmask == NULL) return ERR_ALLOC;
         newdata = malloc(size);
@@ -639,20 +628,19 @@ dax_tag_mask(dax_state *ds, tag_handle handle, void *data, void *mask)
             if( (0x01 << (n % 8)) & ((uint8_t *)data)[n / 8] ) {
                 ((uint8_t *)newdata)[i / 8] |= (1 << (i % 8));
             }
-            newmask[i / 8] |= (1 << (i % 8));
+            if( (0x01 << (n % 8)) & ((uint8_t *)mask)[n / 8] ) {
+                newmask[i / 8] |= (1 << (i % 8));
+            }
             i++;
         }
         /* Determine if the write needs to be broken up into multiple messages */
         if(handle.size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) {
             tsize = size;
-            type_size = dax_get_typesize(ds, handle.type);
-            if(type_size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)) return ERR_2BIG;
             n = 0;
             while(tsize > 0) {
                 rsize = MIN(tsize, (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2);
-                rsize -= (rsize % type_size); /* This should break accross tag boundaries */
                 result = dax_mask(ds, handle.index, handle.byte+n, &newdata[n], &newmask[n], rsize);
-                if(result) return result;
+                if(result) break;
                 tsize -= rsize;
                 n += rsize;
             }
@@ -674,6 +662,7 @@ dax_tag_mask(dax_state *ds, tag_handle handle, void *data, void *mask)
         if(handle.size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) {
             tsize = handle.size;
             type_size = dax_get_typesize(ds, handle.type);
+            if(type_size <= 0) return ERR_BADTYPE;
             if(type_size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) return ERR_2BIG;
             n = 0;
             while(tsize > 0) {
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index f7dda50..52b4426 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -944,16 +944,13 @@ dax_tag_add_override(dax_state *ds, tag_handle handle, void *data) {
     uint8_t *mask, *newdata = NULL;
     uint8_t buff[MSG_DATA_SIZE];
 
+    if(handle.size > MSG_DATA_SIZE || handle.size * 2 + 12 > MSG_DATA_SIZE) return ERR_2BIG;
     size = handle.size;
     *((tag_index *)&buff[0]) = mtos_dint(handle.index);
     *((uint32_t *)&buff[4]) = mtos_dint(handle.byte);
+    *((uint32_t *)&buff[8]) = 0;
 
     if(handle.type == DAX_BOOL && (handle.bit > 0 || handle.count % 8 )) {
-        /* This takes care of the case where we have an even 8 bits but
-         * we are offset from zero so we need an extra byte */
-        if(handle.bit && !(handle.count % 8)) {
-            size++;
-        }
         mask = malloc(size);
         if(mask == NULL) return ERR_ALLOC;
         newdata = malloc(size);
@@ -984,10 +981,6 @@ dax_tag_add_override(dax_state *ds, tag_handle handle, void *data) {
 
     memcpy(&buff[12 + size], mask, size);
     sendsize = size * 2 + 12;
-    if(sendsize > MSG_DATA_SIZE) {
-        if(newdata != NULL) free(newdata);
-        free(mask);
-    }
 
     pthread_mutex_lock(&ds->lock);
     result = _message_send(ds, MSG_ADD_OVRD, buff, sendsize);
@@ -1018,17 +1011,14 @@ dax_tag_del_override(dax_state *ds, tag_handle handle) {
     int i, n, result = 0, size, sendsize;
     uint8_t *mask = NULL;
     uint8_t buff[MSG_DATA_SIZE];
+
+    if(handle.size > MSG_DATA_SIZE - 8) return ERR_2BIG;
     size = handle.size;
 
     *((tag_index *)&buff[0]) = mtos_dint(handle.index);
     *((uint32_t *)&buff[4]) = mtos_dint(handle.byte);
 
     if(handle.type == DAX_BOOL && (handle.bit > 0 || handle.count % 8 )) {
-        /* This takes care of the case where we have an even 8 bits but
-         * we are offset from zero so we need an extra byte */
-        if(handle.bit && !(handle.count % 8)) {
-            size++;
-        }
         mask = malloc(size);
         if(mask == NULL) return ERR_ALLOC;
         bzero(mask, size);
@@ -1048,9 +1038,6 @@ dax_tag_del_override(dax_state *ds, tag_handle handle) {
 
     memcpy(&buff[8], mask, size);
     sendsize = size + 8;
-    if(sendsize > MSG_DATA_SIZE) {
-        free(mask);
-    }
 
     pthread_mutex_lock(&ds->lock);
     result = _message_send(ds, MSG_DEL_OVRD, buff, sendsize);
@@ -1082,13 +1069,14 @@ dax_tag_del_override(dax_state *ds, tag_handle handle) {
 */
 int
 dax_tag_get_override(dax_state *ds, tag_handle handle, void *data, void *mask) {
-    int result = 0, sendsize;
+    int i, n, result = 0, sendsize;
     size_t size;
     uint8_t buff[MSG_DATA_SIZE];
 
     *((tag_index *)&buff[0]) = mtos_dint(handle.index);
     *((uint32_t *)&buff[4]) = mtos_dint(handle.byte);
     *((uint32_t *)&buff[8]) = mtos_dint(handle.size);
+    if(handle.size > MSG_DATA_SIZE / 2) return ERR_2BIG;
 
     sendsize = 12;
     pthread_mutex_lock(&ds->lock);
@@ -1105,8 +1093,24 @@ dax_tag_get_override(dax_state *ds, tag_handle handle, void *data, void *mask) {
         return result;
     }
     pthread_mutex_unlock(&ds->lock);
-    memcpy(data, buff, handle.size);
-    memcpy(mask, &buff[handle.size], handle.size);
+    if(handle.type == DAX_BOOL) {
+        /* The bits that the handle points to start at the top of the buffers */
+        bzero(data, handle.size);
+        bzero(mask, handle.size);
+        i = handle.bit;
+        for(n = 0; n < handle.count; n++) {
+            if(buff[i / 8] & (1 << (i % 8))) {
+                ((uint8_t *)data)[n / 8] |= (1 << (n % 8));
+            }
+            if(buff[handle.size + i / 8] & (1 << (i % 8))) {
+                ((uint8_t *)mask)[n / 8] |= (1 << (n % 8));
+            }
+            i++;
+        }
+    } else {
+        memcpy(data, buff, handle.size);
+        memcpy(mask, &buff[handle.size], handle.size);
+    }
     return result;
 }
 
@@ -1221,8 +1225,13 @@ dax_atomic_op(dax_state *ds, tag_handle h, void *data, uint16_t operation) {
     buff[16]=h.bit;                               /* Bit offset */
     *(dax_dint *)&buff[17] = mtos_uint(operation);/* Operation */
 
+    bzero(&buff[21], h.size);
     if(data != NULL) {
-        memcpy(&buff[21], data, h.size);
+        if(h.type == DAX_BOOL) { /* Only as many bytes as we have bits for */
+            memcpy(&buff[21], data, MIN(h.size, (h.count + 7) / 8));
+        } else {
+            memcpy(&buff[21], data, h.size);
+        }
     }
 
     pthread_mutex_lock(&ds->lock);
@@ -1624,7 +1633,7 @@ dax_map_add(dax_state *ds, tag_handle *src, tag_handle *dest, dax_id *id)
     temp = mtos_dint(dest->type);       /* Data type */
     memcpy(&buff[38], &temp, 4);
 
-    size = sizeof(tag_handle) * 2;
+    size = 42;
 
     pthread_mutex_lock(&ds->lock);
     result = _message_send(ds, MSG_MAP_ADD, buff, size);
-- 
2.43.0


From 8226e5cfea63e98aca03181f63e7bd894908d9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:44 +0000
Subject: [PATCH 22/64] fix: client library: conversions between text and
 values at the edges of their range

---
 src/lib/libfunc.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/lib/libfunc.c b/src/lib/libfunc.c
index 43e1db6..37f0750 100644
--- a/src/lib/libfunc.c
+++ b/src/lib/libfunc.c
@@ -24,6 +24,7 @@
 #include <stdarg.h>
 #include <signal.h>
 #include <time.h>
+#include <ctype.h>
 
 
 /* The following two functions are utility functions for converting dax
@@ -45,9 +46,9 @@ int
 dax_val_to_string(char *buff, int size, tag_type type, void *val, int index)
 {
     int ms;
-    long int sec;
-    struct tm *tm;
-    char tstr[16];
+    time_t sec;
+    struct tm tm;
+    size_t len;
 
     if(val==NULL) return ERR_EMPTY;
     switch (type) {
@@ -91,11 +92,14 @@ dax_val_to_string(char *buff, int size, tag_type type, void *val, int index)
             break;
         case DAX_TIME:
             ms = ((dax_lint *)val)[index] % 1000;
-            sprintf(tstr, ".%03d", ms);
             sec = ((dax_lint *)val)[index] / 1000;
-            tm = gmtime(&sec);
-            strftime(buff, size, "%FT%T", tm);
-            strncat(buff, tstr, size);
+            if(ms < 0) { /* Before 1970 */
+                ms += 1000;
+                sec--;
+            }
+            gmtime_r(&sec, &tm);
+            len = strftime(buff, size, "%FT%T", &tm);
+            snprintf(&buff[len], size - len, ".%03d", ms);
             break;
         case DAX_LINT:
             snprintf(buff, size, "%ld", ((dax_lint *)val)[index]);
@@ -161,7 +165,7 @@ dax_string_to_val(char *instr, tag_type type, void *buff, void *mask, int index)
             if(mask) ((dax_byte *)mask)[index] = 0xFF;
             break;
         case DAX_CHAR:
-            if(instr[1] == 0) { /* One character */
+            if(instr[0] == 0 || instr[1] == 0) { /* One character */
                 ((dax_char *)buff)[index] = instr[0];
                 if(mask) ((dax_sint *)mask)[index] = 0xFF;
                 break;
@@ -182,7 +186,7 @@ dax_string_to_val(char *instr, tag_type type, void *buff, void *mask, int index)
             break;
         case DAX_WORD:
         case DAX_UINT:
-            temp =  strtoul(instr, NULL, 0);
+            temp =  strtol(instr, NULL, 0);
             if(temp < DAX_UINT_MIN) {
                 ((dax_uint *)buff)[index] = DAX_UINT_MIN;
                 retval = ERR_UNDERFLOW;
@@ -244,8 +248,10 @@ dax_string_to_val(char *instr, tag_type type, void *buff, void *mask, int index)
             break;
         case DAX_LWORD:
         case DAX_ULINT:
+            while(isspace((unsigned char)*instr)) instr++;
             if(instr[0]=='-') {
                 ((dax_ulint *)buff)[index] = 0x0000000000000000;
+                if(mask) ((dax_ulint *)mask)[index] = DAX_64_ONES;
                 retval = ERR_UNDERFLOW;
                 break;
             }
@@ -261,7 +267,7 @@ dax_string_to_val(char *instr, tag_type type, void *buff, void *mask, int index)
             ((dax_lint *)buff)[index] = (dax_lint)strtoll(instr, NULL, 0);
             if(mask) ((dax_lint *)mask)[index] = DAX_64_ONES;
             if(errno == ERANGE) {
-                if(instr[0]=='-') {
+                if(((dax_lint *)buff)[index] < 0) {
                     retval = ERR_UNDERFLOW;
                 } else {
                     retval = ERR_OVERFLOW;
@@ -287,7 +293,7 @@ dax_string_to_val(char *instr, tag_type type, void *buff, void *mask, int index)
                 if(result == 6) ms = 0;
                 tm.tm_year = year - 1900; /* Year is since 1900 in struct tm */
                 tm.tm_mon--; /* Month is 0-30 in struct tm */
-                ((dax_lint *)buff)[index] = ((dax_lint)timegm(&tm) * 1000) + ms;
+                ((dax_lint *)buff)[index] = (dax_lint)((dax_ulint)timegm(&tm) * 1000 + ms);
                 if(mask) ((dax_lint *)mask)[index] = DAX_64_ONES;
             }
             break;
-- 
2.43.0


From 9ed8faa8dc66661bbd31fde141eee35544787e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:44 +0000
Subject: [PATCH 23/64] fix: client library: convert only the data a write or
 an atomic operation has

---
 src/lib/libdata.c | 18 +++++++++++-------
 src/lib/libmsg.c  | 12 ++++++++++--
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/lib/libdata.c b/src/lib/libdata.c
index 7c6bc52..68ff5eb 100644
--- a/src/lib/libdata.c
+++ b/src/lib/libdata.c
@@ -392,7 +392,7 @@ dax_tag_read(dax_state *ds, tag_handle handle, void *data)
         newdata = malloc(handle.size);
         if(newdata == NULL) return ERR_ALLOC;
         bzero(newdata, handle.size);
-        for(n = 0; n < handle.count; n++) {
+        for(n = 0; n < handle.count && i / 8 < handle.size; n++) {
             if( (0x01 << (i % 8)) & ((uint8_t *)data)[i / 8] ) {
                 ((uint8_t *)newdata)[n / 8] |= (1 << (n % 8));
             }
@@ -525,7 +525,9 @@ dax_tag_write(dax_state *ds, tag_handle handle, void *data)
     int rsize, tsize, type_size;
 
     if(handle.type == DAX_BOOL && (handle.bit > 0 || handle.count % 8 )) {
-        size = handle.size;
+        /* We can't count on handle.size because it may not include
+         * all the bytes that the bits occupy */
+        size = (handle.bit + handle.count - 1) / 8 + 1;
         mask = malloc(size);
         if(mask == NULL) return ERR_ALLOC;
         newdata = malloc(size);
@@ -536,7 +538,7 @@ dax_tag_write(dax_state *ds, tag_handle handle, void *data)
         bzero(mask, size);
         bzero(newdata, size);
 
-        i = handle.bit % 8;
+        i = handle.bit;
         for(n = 0; n < handle.count; n++) {
             if( (0x01 << (n % 8)) & ((uint8_t *)data)[n / 8] ) {
                 ((uint8_t *)newdata)[i / 8] |= (1 << (i % 8));
@@ -545,7 +547,7 @@ dax_tag_write(dax_state *ds, tag_handle handle, void *data)
             i++;
         }
         /* Determine if the write needs to be broken up into multiple messages */
-        if(handle.size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) {
+        if(size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) {
             tsize = size;
             n = 0;
             while(tsize > 0) {
@@ -612,7 +614,9 @@ dax_tag_mask(dax_state *ds, tag_handle handle, void *data, void *mask)
     int rsize, tsize, type_size;
 
     if(handle.type == DAX_BOOL && (handle.bit > 0 || handle.count % 8 )) {
-        size = handle.size;
+        /* We can't count on handle.size because it may not include
+         * all the bytes that the bits occupy */
+        size = (handle.bit + handle.count - 1) / 8 + 1;
         newmask = malloc(size);
         if(newmask == NULL) return ERR_ALLOC;
         newdata = malloc(size);
@@ -623,7 +627,7 @@ dax_tag_mask(dax_state *ds, tag_handle handle, void *data, void *mask)
         bzero(newmask, size);
         bzero(newdata, size);
 
-        i = handle.bit % 8;
+        i = handle.bit;
         for(n = 0; n < handle.count; n++) {
             if( (0x01 << (n % 8)) & ((uint8_t *)data)[n / 8] ) {
                 ((uint8_t *)newdata)[i / 8] |= (1 << (i % 8));
@@ -634,7 +638,7 @@ dax_tag_mask(dax_state *ds, tag_handle handle, void *data, void *mask)
             i++;
         }
         /* Determine if the write needs to be broken up into multiple messages */
-        if(handle.size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) {
+        if(size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) {
             tsize = size;
             n = 0;
             while(tsize > 0) {
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 52b4426..ba4ff46 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -944,7 +944,12 @@ dax_tag_add_override(dax_state *ds, tag_handle handle, void *data) {
     uint8_t *mask, *newdata = NULL;
     uint8_t buff[MSG_DATA_SIZE];
 
-    if(handle.size > MSG_DATA_SIZE || handle.size * 2 + 12 > MSG_DATA_SIZE) return ERR_2BIG;
+    /* We can't count on handle.size for the bits because it may not include
+     * all the bytes that they occupy */
+    if(handle.type == DAX_BOOL) {
+        handle.size = (handle.bit + handle.count - 1) / 8 + 1;
+    }
+    if(handle.size > (MSG_DATA_SIZE - 12) / 2) return ERR_2BIG;
     size = handle.size;
     *((tag_index *)&buff[0]) = mtos_dint(handle.index);
     *((uint32_t *)&buff[4]) = mtos_dint(handle.byte);
@@ -1012,6 +1017,9 @@ dax_tag_del_override(dax_state *ds, tag_handle handle) {
     uint8_t *mask = NULL;
     uint8_t buff[MSG_DATA_SIZE];
 
+    if(handle.type == DAX_BOOL) {
+        handle.size = (handle.bit + handle.count - 1) / 8 + 1;
+    }
     if(handle.size > MSG_DATA_SIZE - 8) return ERR_2BIG;
     size = handle.size;
 
@@ -1098,7 +1106,7 @@ dax_tag_get_override(dax_state *ds, tag_handle handle, void *data, void *mask) {
         bzero(data, handle.size);
         bzero(mask, handle.size);
         i = handle.bit;
-        for(n = 0; n < handle.count; n++) {
+        for(n = 0; n < handle.count && i / 8 < handle.size; n++) {
             if(buff[i / 8] & (1 << (i % 8))) {
                 ((uint8_t *)data)[n / 8] |= (1 << (n % 8));
             }
-- 
2.43.0


From 375a0d4c80b0c74e876433154d5dd379bfef647f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:08 +0000
Subject: [PATCH 24/64] fix: client library: convert the members of compound
 datatypes where they are

Nested members were converted at twice their offset, BOOL members were not
packed as the layout packs them, and of an array of compound items only the
first was converted.
---
 src/lib/libdata.c | 64 +++++++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/src/lib/libdata.c b/src/lib/libdata.c
index 68ff5eb..5bdbbbd 100644
--- a/src/lib/libdata.c
+++ b/src/lib/libdata.c
@@ -250,7 +250,7 @@ cache_tag_del(dax_state *ds, tag_index idx) {
 static inline int
 _read_format(dax_state *ds, tag_type type, int count, void *data, int offset)
 {
-    int n, pos, result;
+    int n, pos, bits, result;
     char *newdata;
     datatype *dtype = NULL;
     cdt_member *this = NULL;
@@ -258,24 +258,26 @@ _read_format(dax_state *ds, tag_type type, int count, void *data, int offset)
     type &= ~DAX_QUEUE; /* Delete the Queue bit from the type */
     newdata = (char *)data + offset;
     if(IS_CUSTOM(type)) {
-        /* iterate through the list */
         dtype = get_cdt_pointer(ds, type, NULL);
-        pos = offset;
-        if(dtype != NULL) {
-            this = dtype->members;
-        } else {
+        if(dtype == NULL) {
             return ERR_NOTFOUND;
         }
-        while(this != NULL) {
-            result = _read_format(ds, this->type, this->count, data, pos);
-            if(result) return result;
-            if(IS_CUSTOM(this->type)) {
-                pos += (dax_get_typesize(ds, this->type) * this->count);
-            } else {
-                /* This gets the size in bits */
-                pos += TYPESIZE(this->type) * this->count / 8;
+        pos = offset;
+        for(n = 0; n < count; n++) {
+            bits = 0; /* BOOLs are packed and everything else starts on a byte */
+            /* iterate through the list */
+            for(this = dtype->members; this != NULL; this = this->next) {
+                if(this->type == DAX_BOOL) {
+                    bits += this->count;
+                    continue;
+                }
+                pos += (bits + 7) / 8;
+                bits = 0;
+                result = _read_format(ds, this->type, this->count, data, pos);
+                if(result) return result;
+                pos += dax_get_typesize(ds, this->type) * this->count;
             }
-            this = this->next;
+            pos += (bits + 7) / 8;
         }
     } else {
         switch(type) {
@@ -416,7 +418,7 @@ dax_tag_read(dax_state *ds, tag_handle handle, void *data)
 static inline int
 _write_format(dax_state *ds, tag_type type, int count, void *data, int offset)
 {
-    int n, pos, result;
+    int n, pos, bits, result;
     char *newdata;
     datatype *dtype = NULL;
     cdt_member *this = NULL;
@@ -424,24 +426,26 @@ _write_format(dax_state *ds, tag_type type, int count, void *data, int offset)
     type &= ~DAX_QUEUE; /* Delete the Queue bit from the type */
     newdata = (char *)data + offset;
     if(IS_CUSTOM(type)) {
-        /* iterate through the list */
         dtype = get_cdt_pointer(ds, type, NULL);
-        pos = offset;
-        if(dtype != NULL) {
-            this = dtype->members;
-        } else {
+        if(dtype == NULL) {
             return ERR_NOTFOUND;
         }
-        while(this != NULL) {
-            result = _write_format(ds, this->type, this->count, newdata, pos);
-            if(result) return result;
-            if(IS_CUSTOM(this->type)) {
-                pos += (dax_get_typesize(ds, this->type) * this->count);
-            } else {
-                /* This gets the size in bits */
-                pos += TYPESIZE(this->type) * this->count / 8;
+        pos = offset;
+        for(n = 0; n < count; n++) {
+            bits = 0; /* BOOLs are packed and everything else starts on a byte */
+            /* iterate through the list */
+            for(this = dtype->members; this != NULL; this = this->next) {
+                if(this->type == DAX_BOOL) {
+                    bits += this->count;
+                    continue;
+                }
+                pos += (bits + 7) / 8;
+                bits = 0;
+                result = _write_format(ds, this->type, this->count, data, pos);
+                if(result) return result;
+                pos += dax_get_typesize(ds, this->type) * this->count;
             }
-            this = this->next;
+            pos += (bits + 7) / 8;
         }
     } else {
         switch(type) {
-- 
2.43.0


From 3b23e65e5bf44d7fd4b94b5fecd8ab5671b54bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:31 +0000
Subject: [PATCH 25/64] fix: logger: name and default topics were changed under
 the threads that log

---
 src/lib/logger/daxlog.c | 64 ++++++++++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 14 deletions(-)

diff --git a/src/lib/logger/daxlog.c b/src/lib/logger/daxlog.c
index 6e10e65..8b9ea93 100644
--- a/src/lib/logger/daxlog.c
+++ b/src/lib/logger/daxlog.c
@@ -22,15 +22,19 @@
 #include <common.h>
 #include <config.h>
 #include <stdarg.h>
+#include <pthread.h>
 
 
 #define LOG_STRING_SIZE 256
+#define LOG_NAME_SIZE 64
 #define SERVICE_LIST_SIZE 32
 
 /* This is the default log topic mask.  This is used if no other
  * logging services are configured. */
 static uint32_t _default_topics = DAX_LOG_FATAL | DAX_LOG_ERROR;
-static const char *_name;
+/* The logger belongs to the whole program and there may be many threads */
+static pthread_mutex_t _lock = PTHREAD_MUTEX_INITIALIZER;
+static char _name[LOG_NAME_SIZE];
 
 static void (*_topic_callback)(char *topic);
 static service_item _services[SERVICE_LIST_SIZE];
@@ -75,6 +79,15 @@ _topic_to_string(uint32_t topic) {
     }
 }
 
+/* Copies the name into the given buffer */
+static char *
+_get_name(char *name) {
+    pthread_mutex_lock(&_lock);
+    strcpy(name, _name);
+    pthread_mutex_unlock(&_lock);
+    return name;
+}
+
 /* Every logging service requires at least two functions.  One that is called
  * during configuration and the other that actually does the logging. Each
  * service also has a structure type that would be stored in the array to
@@ -86,7 +99,9 @@ _log_stdio(uint32_t topic, void *data, char *str) {
     stdio_service *config;
     config = (stdio_service *)data;
 
-    fprintf(config->file, "[%s] %s: %s\n",_name, _topic_to_string(topic), str);
+    char name[LOG_NAME_SIZE];
+
+    fprintf(config->file, "[%s] %s: %s\n", _get_name(name), _topic_to_string(topic), str);
 }
 
 static int
@@ -97,10 +112,13 @@ _add_stdio_service(lua_State *L, service_item *service) {
     new = malloc(sizeof(stdio_service));
     lua_getfield(L, -1, "file");
     file = lua_tostring(L, -1);
-    if(strcasecmp(file, "stdout")==0) {
+    if(file == NULL || strcasecmp(file, "stdout")==0) {
         new->file = stdout;
     } else if(strcasecmp(file, "stderr")==0) {
         new->file = stderr;
+    } else {
+        free(new);
+        return luaL_error(L, "Unknown file given");
     }
     service->log_func = _log_stdio;
     service->data=(void *)new;
@@ -125,6 +143,10 @@ _add_syslog_service(lua_State *L, service_item *service) {
     new = malloc(sizeof(syslog_service));
     lua_getfield(L, -1, "priority");
     priority = lua_tostring(L, -1);
+    if(priority == NULL) {
+        free(new);
+        return luaL_error(L, "No priority given");
+    }
 
     if(strcasecmp(priority, "EMERG") == 0)
         new->priority = LOG_EMERG;
@@ -166,7 +188,7 @@ _add_service(lua_State *L)
     /* TODO: Reallocate the array instead of static */
     if(_service_count >= _service_size) {
         dax_log(DAX_LOG_ERROR, "No more log services available");
-        return ERR_OVERFLOW;
+        return 0;
     }
     if(!lua_istable(L, -1)) {
         luaL_error(L, "add_port() received an argument that is not a table");
@@ -176,13 +198,16 @@ _add_service(lua_State *L)
     topics = lua_tostring(L, -1);
     if(topics == NULL) {
         dax_log(DAX_LOG_ERROR, "No Topic list given");
-        return ERR_ARG;
+        return 0;
     }
     mask = dax_parse_log_topics((char *)topics);
     lua_pop(L, 1);
 
     lua_getfield(L, -1, "type");
     type = lua_tostring(L, -1);
+    if(type == NULL) {
+        return luaL_error(L, "No log service type given");
+    }
     if(strcasecmp(type, "stdio")==0) {
         lua_pop(L, 1); /* Put the table back at the top of the stack */
         result = _add_stdio_service(L, &_services[_service_count]);
@@ -191,10 +216,10 @@ _add_service(lua_State *L)
         result = _add_syslog_service(L, &_services[_service_count]);
     } else {
         dax_log(DAX_LOG_ERROR, "Unknown log service %s", type);
-        return ERR_ARG;
+        return 0;
     }
     if(result) {
-        return result; /* Return the result of the _add_xx_service function */
+        return 0;
     }
     _services[_service_count].mask = mask;
     _service_count++;
@@ -205,12 +230,14 @@ _add_service(lua_State *L)
 int
 dax_init_logger(const char *name, uint32_t topics) {
     /* The name may be used for some loggin services. */
+    pthread_mutex_lock(&_lock);
     if(name != NULL) {
-        _name = name;
+        snprintf(_name, LOG_NAME_SIZE, "%s", name);
     }
     if(topics) {
         _default_topics = topics;
     }
+    pthread_mutex_unlock(&_lock);
     return 0;
 }
 
@@ -229,7 +256,7 @@ dax_log_set_lua_function(lua_State *L) {
 /* Parse a comma delimited string and return a logging topics bit mask */
 uint32_t
 dax_parse_log_topics(char *topic_string) {
-    char *temp, *s;
+    char *temp, *s, *last;
     uint32_t log_mask = 0;
 
     if(topic_string == NULL) {
@@ -237,7 +264,7 @@ dax_parse_log_topics(char *topic_string) {
     }
     temp = strdup(topic_string);
 
-    s = strtok(temp, ",");
+    s = strtok_r(temp, ",", &last);
     while(s != NULL) {
         if(strcmp(s,"ALL") == 0) log_mask |= DAX_LOG_ALL;
         if(strcmp(s,"MINOR") == 0) log_mask |= DAX_LOG_MINOR;
@@ -253,11 +280,13 @@ dax_parse_log_topics(char *topic_string) {
         if(strcmp(s,"PROTOCOL") == 0) log_mask |= DAX_LOG_PROTOCOL;
         if(strcmp(s,"INFO") == 0) log_mask |= DAX_LOG_INFO;
         if(strcmp(s,"DEBUG") == 0) log_mask |= DAX_LOG_DEBUG;
+        if(strcmp(s,"LOGIC") == 0) log_mask |= DAX_LOG_LOGIC;
+        if(strcmp(s,"LOGICERR") == 0) log_mask |= DAX_LOG_LOGICERR;
 
         if(_topic_callback != NULL) { /* If there is a callback function assigned */
             _topic_callback(s);       /* Call it */
         }
-        s = strtok(NULL, ",");
+        s = strtok_r(NULL, ",", &last);
     }
     free(temp);
     return log_mask;
@@ -274,14 +303,16 @@ dax_parse_log_topics(char *topic_string) {
 /* Sets the default bit mask directly */
 void
 dax_log_set_default_mask(uint32_t mask) {
+    pthread_mutex_lock(&_lock);
     _default_topics = mask;
+    pthread_mutex_unlock(&_lock);
 }
 
 /* Takes a comma delimited string and usees that
  * to set the log topic bit mask */
 void
 dax_log_set_default_topics(char *topics) {
-    _default_topics = dax_parse_log_topics(topics);
+    dax_log_set_default_mask(dax_parse_log_topics(topics));
 }
 
 
@@ -292,14 +323,19 @@ void
 dax_log(uint32_t topic, const char *format, ...)
 {
     char output[LOG_STRING_SIZE];
+    char name[LOG_NAME_SIZE];
+    uint32_t default_topics;
     va_list val;
 
     /* Format the string */
     va_start(val, format);
     vsnprintf(output, LOG_STRING_SIZE, format, val);
     va_end(val);
-    if(_service_count == 0 && _default_topics & topic) {
-        printf("[%s] %s: %s\n",_name, _topic_to_string(topic), output);
+    pthread_mutex_lock(&_lock);
+    default_topics = _default_topics;
+    pthread_mutex_unlock(&_lock);
+    if(_service_count == 0 && default_topics & topic) {
+        printf("[%s] %s: %s\n", _get_name(name), _topic_to_string(topic), output);
     } else {
         /* Loop through the services and call the function if
            we have a match */
-- 
2.43.0


From c6e08153f4b6df96bf143ad6eb7f88f6da06a76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:31 +0000
Subject: [PATCH 26/64] fix: Lua library: the connection is the interpreter's,
 not the program's

---
 src/lib/lua/libdaxlua.c | 67 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 63 insertions(+), 4 deletions(-)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index 5e08c39..ceacb2d 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -23,7 +23,36 @@
 
 #include "libdaxlua.h"
 
-static dax_state *ds;
+/* The dax_state that is used by interpreters that haven't been given one of
+ * their own with daxlua_set_state() or dax.init() */
+static dax_state *default_ds;
+/* The address of this is the key of the dax_state in the registry */
+static char state_key;
+
+/* A program may have more than one connection, each with interpreters of its
+ * own that run in different threads so we keep the dax_state in the registry
+ * of the interpreter that uses it. */
+static dax_state *
+_get_state(lua_State *L)
+{
+    dax_state *ds;
+
+    lua_rawgetp(L, LUA_REGISTRYINDEX, &state_key);
+    ds = lua_touserdata(L, -1);
+    lua_pop(L, 1);
+    return ds != NULL ? ds : default_ds;
+}
+
+static void
+_set_state(lua_State *L, dax_state *ds)
+{
+    if(ds == NULL) {
+        lua_pushnil(L);
+    } else {
+        lua_pushlightuserdata(L, ds);
+    }
+    lua_rawsetp(L, LUA_REGISTRYINDEX, &state_key);
+}
 
 /* This is just a convenience since I needs to pass multiple pieces
  * of data back from the cdt_iter callback. */
@@ -140,6 +169,7 @@ _push_base_datatype(lua_State *L, cdt_iter tag, void *data)
 static void
 _read_callback(cdt_iter member, void *udata)
 {
+    dax_state *ds = _get_state(((struct iter_udata *)udata)->L);
     lua_State *L = ((struct iter_udata *)udata)->L;
     unsigned char *data = ((struct iter_udata *)udata)->data;
     int offset, n;
@@ -179,6 +209,7 @@ _read_callback(cdt_iter member, void *udata)
 void
 daxlua_dax_to_lua(lua_State *L, tag_handle h, void *data)
 {
+    dax_state *ds = _get_state(L);
     cdt_iter tag;
     struct iter_udata udata;
     int offset, n;
@@ -337,6 +368,7 @@ _pop_base_datatype(lua_State *L, cdt_iter tag, void *data, void *mask)
 static void
 _write_callback(cdt_iter member, void *udata)
 {
+    dax_state *ds = _get_state(((struct iter_udata *)udata)->L);
     struct iter_udata newdata;
 
     lua_State *L = ((struct iter_udata *)udata)->L;
@@ -418,6 +450,7 @@ _write_callback(cdt_iter member, void *udata)
 int
 daxlua_lua_to_dax(lua_State *L, tag_handle h, void* data, void *mask)
 {
+    dax_state *ds = _get_state(L);
     cdt_iter tag;
     struct iter_udata udata;
     int n, offset;
@@ -477,6 +510,7 @@ daxlua_lua_to_dax(lua_State *L, tag_handle h, void* data, void *mask)
 static int
 _dax_init(lua_State *L)
 {
+    dax_state *ds;
     char *modulename;
     int n, len;
     int argc;
@@ -513,6 +547,7 @@ _dax_init(lua_State *L)
     if(ds == NULL) {
         luaL_error(L, "Unable to allocate memory for dax_state object");
     }
+    _set_state(L, ds);
 
     /* If we have been given a second argument which is a table to configuration
      * attributes that we want to set */
@@ -552,6 +587,7 @@ _dax_init(lua_State *L)
 static int
 _dax_free(lua_State *L)
 {
+    dax_state *ds = _get_state(L);
     if( dax_disconnect(ds) ) {
         luaL_error(L, "Problem Unregistering from the server");
     }
@@ -569,6 +605,7 @@ _dax_free(lua_State *L)
 static int
 _cdt_create(lua_State *L)
 {
+    dax_state *ds = _get_state(L);
     int count, n = 1, result;
     dax_cdt *cdt;
     tag_type type;
@@ -631,6 +668,7 @@ _cdt_create(lua_State *L)
 static int
 _tag_add(lua_State *L)
 {
+    dax_state *ds = _get_state(L);
     int result, count;
     uint32_t attr = 0;
     tag_type type;
@@ -670,6 +708,7 @@ _tag_add(lua_State *L)
 static int
 _tag_get(lua_State *L)
 {
+    dax_state *ds = _get_state(L);
     int result;
     dax_tag tag;
 
@@ -694,6 +733,7 @@ _tag_get(lua_State *L)
 static int
 _tag_handle(lua_State *L)
 {
+    dax_state *ds = _get_state(L);
     char *name;
     int count;
     int result;
@@ -726,6 +766,7 @@ _tag_handle(lua_State *L)
  * the dax_read/write/mask function. */
 static int
 _tag_read(lua_State *L) {
+    dax_state *ds = _get_state(L);
     char *name;
     int count, result;
     tag_handle h;
@@ -775,6 +816,7 @@ _tag_read(lua_State *L) {
 
 static int
 _tag_write(lua_State *L) {
+    dax_state *ds = _get_state(L);
     char *name;
     char q = 0;
     int result, n;
@@ -847,6 +889,7 @@ _tag_write(lua_State *L) {
 
 static int
 _tag_del(lua_State *L) {
+    dax_state *ds = _get_state(L);
     int result;
     dax_tag tag;
 
@@ -991,6 +1034,7 @@ _convert_lua_number(tag_type datatype, void **data, lua_Number x) {
  * Lua script should probably not mess with the members of this table. */
 static int
 _event_add(lua_State *L) {
+    dax_state *ds = _get_state(L);
     char *str;
     int count, type, result;
     lua_Number number;
@@ -1054,6 +1098,7 @@ _event_add(lua_State *L) {
  * nothing */
 static int
 _event_del(lua_State *L) {
+    dax_state *ds = _get_state(L);
     dax_id id;
 
     if(!lua_istable(L, 1)) {
@@ -1073,6 +1118,7 @@ _event_del(lua_State *L) {
  * it dispatches an event */
 static int
 _event_wait(lua_State *L) {
+    dax_state *ds = _get_state(L);
     int result;
     int timeout;
 
@@ -1099,6 +1145,7 @@ _event_wait(lua_State *L) {
  * no events and 1 if it dispatches an event */
 static int
 _event_poll(lua_State *L) {
+    dax_state *ds = _get_state(L);
     int result;
 
     result = dax_event_poll(ds, NULL);
@@ -1117,6 +1164,7 @@ _event_poll(lua_State *L) {
  * no events and 1 if it dispatches an event */
 static int
 _atomic_op(lua_State *L) {
+    dax_state *ds = _get_state(L);
     int result;
     char *name;
     tag_handle *hp;
@@ -1171,6 +1219,7 @@ _atomic_op(lua_State *L) {
 
 static int
 _map_add(lua_State *L) {
+    dax_state *ds = _get_state(L);
     int result;
     char *name;
     tag_handle *hp1, *hp2;
@@ -1219,6 +1268,7 @@ _map_add(lua_State *L) {
 
 static int
 _map_get(lua_State *L) {
+    dax_state *ds = _get_state(L);
     dax_id id;
     tag_handle *src, *dest;
     int result;
@@ -1260,6 +1310,7 @@ _map_get(lua_State *L) {
 
 static int
 _map_del(lua_State *L) {
+    dax_state *ds = _get_state(L);
     dax_id id;
     int result;
 
@@ -1286,6 +1337,7 @@ _map_del(lua_State *L) {
 
 static int
 _override_add(lua_State *L) {
+    dax_state *ds = _get_state(L);
     void *data, *mask;
     char *name;
     int result;
@@ -1344,6 +1396,7 @@ _override_add(lua_State *L) {
 
 static int
 _override_set(lua_State *L) {
+    dax_state *ds = _get_state(L);
     char *name;
     int result;
     tag_handle h;
@@ -1378,6 +1431,7 @@ _override_set(lua_State *L) {
 
 static int
 _override_del(lua_State *L) {
+    dax_state *ds = _get_state(L);
     char *name;
     int result;
     tag_handle h;
@@ -1413,6 +1467,7 @@ _override_del(lua_State *L) {
 
 static int
 _override_clr(lua_State *L) {
+    dax_state *ds = _get_state(L);
     char *name;
     int result;
     tag_handle h;
@@ -1501,11 +1556,15 @@ _log(lua_State *L) {
 /* This is used by C program / modules that would like to take care of all
  * the allocation, initialization and configuration of their dax_state
  * objects.  It is very critical for that C function not to lose track of
- * this dax_state object because this simply resets the libraries global
- * variable. */
+ * this dax_state object because this simply stores the pointer.  If L is NULL
+ * then it's used for all of the interpreters that don't have their own. */
 int
 daxlua_set_state(lua_State *L, dax_state *new_ds) {
-    ds = new_ds;
+    if(L == NULL) {
+        default_ds = new_ds;
+    } else {
+        _set_state(L, new_ds);
+    }
     return 0;
 }
 
-- 
2.43.0


From d676c7f94c314266e98d9e3fab62e0b24573c77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:31 +0000
Subject: [PATCH 27/64] fix: client configuration: options that don't need a
 value, were given twice or came from the file

---
 src/lib/libopt.c | 66 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 47 insertions(+), 19 deletions(-)

diff --git a/src/lib/libopt.c b/src/lib/libopt.c
index 526a041..5ac4816 100644
--- a/src/lib/libopt.c
+++ b/src/lib/libopt.c
@@ -177,7 +177,7 @@ _check_attr(dax_state *ds, char *name, char *longopt, char shortopt)
         if( (longopt != NULL) && (this->longopt != NULL) && (!strcmp(this->longopt, longopt))) {
             return ERR_DUPL;
         }
-        if(this->shortopt == shortopt) {
+        if( (shortopt != '\0') && (this->shortopt == shortopt)) {
             return ERR_DUPL;
         }
         this = this->next;
@@ -191,11 +191,11 @@ dax_add_attribute(dax_state *ds, char *name, char *longopt, char shortopt, int f
     optattr *newattr;
     int result;
 
+    if(name == NULL) return ERR_ARG;
     /* Check for bad symbols */
     if( (result = _check_attr(ds, name, longopt, shortopt)) ) {
         return result;
     }
-    if(name == NULL) return ERR_ARG;
 
     newattr = malloc(sizeof(optattr));
     if(newattr == NULL) {
@@ -239,6 +239,7 @@ dax_attr_callback(dax_state *ds, char *name, int (*attr_callback)(char *name, ch
             this->callback = attr_callback;
             return 0;
         }
+        this = this->next;
     }
     return ERR_NOTFOUND;
 }
@@ -254,10 +255,12 @@ static int
 _set_attr(optattr *attr, char *value) {
     /* Set the value and call the callback function if there is one */
     if( !(attr->flags & CFG_NO_VALUE) ) {
-        if(attr->flags & (CFG_ARG_OPTIONAL | CFG_ARG_REQUIRED)) {
+        free(attr->value); /* It may have been given more than once */
+        /* An optional argument may not have been given */
+        if(value != NULL && attr->flags & (CFG_ARG_OPTIONAL | CFG_ARG_REQUIRED)) {
             attr->value = strdup(value);
         } else {
-            attr->value = "Yes";
+            attr->value = strdup("Yes");
         }
     }
     if(attr->callback) {
@@ -333,6 +336,9 @@ _parse_commandline(dax_state *ds, int argc, char **argv) {
         }
         this = this->next;
     }
+    shortopts[o_index] = '\0';
+    bzero(&options[attr_index], sizeof(struct option)); /* getopt needs this to find the end */
+    optind = 0; /* We may not be the first to use getopt in this program */
     ch = 0;
     while(ch != -1) {
         ch = getopt_long(argc, (char * const *)argv, shortopts, options, &index);
@@ -348,7 +354,7 @@ _parse_commandline(dax_state *ds, int argc, char **argv) {
         } else if(ch == 0) {
             this = ds->attr_head;
             while(this != NULL) {
-                if(!strcasecmp(this->longopt, options[index].name)) {
+                if(this->longopt != NULL && !strcmp(this->longopt, options[index].name)) {
                     _set_attr(this, optarg);
                     break;
                 }
@@ -375,12 +381,18 @@ _get_lua_globals(dax_state *ds) {
         /* If the value has not already been set and we
          * are actually looking for the attribute in this
          * configuration file */
+        if( !(this->flags & CFG_MODCONF) ) {
+            this = this->next;
+            continue;
+        }
         lua_getglobal(ds->L, this->name);
         if(lua_isboolean(ds->L, -1)) {
             if(lua_toboolean(ds->L, -1)) {
                 s = "true";
-            } else {
+            } else if(this->flags & (CFG_ARG_OPTIONAL | CFG_ARG_REQUIRED)) {
                 s = "false";
+            } else {
+                s = NULL; /* The flag is not set */
             }
         } else {
             s = lua_tostring(ds->L, -1);
@@ -409,7 +421,7 @@ _config_print(lua_State *L) {
     }
     str = lua_tostring(L, 1);
     if(str!= NULL) {
-        dax_log(DAX_LOG_CONFIG, str);
+        dax_log(DAX_LOG_CONFIG, "%s", str);
     } else {
         luaL_error(L, "Problem with string passed to print()");
     }
@@ -431,7 +443,7 @@ _logic_print(lua_State *L) {
     }
     str = lua_tostring(L, 1);
     if(str!= NULL) {
-        dax_log(DAX_LOG_LOGIC, str);
+        dax_log(DAX_LOG_LOGIC, "%s", str);
     } else {
         luaL_error(L, "Problem with string passed to print()");
     }
@@ -443,7 +455,7 @@ _logic_print(lua_State *L) {
  * file and run it. */
 static inline int
 _mod_config_file(dax_state *ds) {
-    int length;
+    int length, result = 0;
     char *cfile, *cdir;
 
     /* This gets the default configuration file name
@@ -462,6 +474,9 @@ _mod_config_file(dax_state *ds) {
         } else {
             return ERR_ALLOC;
         }
+    } else {
+        cfile = strdup(cfile); /* The original belongs to the attribute */
+        if(cfile == NULL) return ERR_ALLOC;
     }
     luaopen_base(ds->L);
 
@@ -476,15 +491,14 @@ _mod_config_file(dax_state *ds) {
     /* load and run the configuration file */
     if(luaL_loadfile(ds->L, cfile)  || lua_pcall(ds->L, 0, 0, 0)) {
         dax_log(DAX_LOG_ERROR, "Problem executing configuration file %s - %s",cfile, lua_tostring(ds->L, -1));
-        free(cfile);
-        return ERR_NOTFOUND;
+        result = ERR_NOTFOUND;
     } else {
         dax_log(DAX_LOG_DEBUG, "Configured using file %s",cfile);
         _get_lua_globals(ds);
     }
 
     free(cfile);
-    return 0;
+    return result;
 }
 
 /* This loops through all the configuration attributes and sets
@@ -544,6 +558,22 @@ _verify_config(dax_state *ds)
     return 0;
 }
 
+/* Uses the name attribute as the name of the module if it has been set */
+static int
+_set_name(dax_state *ds)
+{
+    char *name;
+
+    if(dax_get_attr(ds, "name") != NULL) {
+        name = strdup(dax_get_attr(ds, "name"));
+        if(name == NULL) return ERR_ALLOC;
+        free(ds->modulename);
+        ds->modulename = name;
+        dax_init_logger(name, 0);
+    }
+    return 0;
+}
+
 /*!
  * Parse the command line and execute the configuration
  * script.
@@ -552,7 +582,7 @@ int
 dax_configure(dax_state *ds, int argc, char **argv, int flags)
 {
     char *topics;
-    int result;
+    int result = 0;
 
     if(ds->modulename == NULL) {
         return ERR_NO_INIT;
@@ -573,14 +603,12 @@ dax_configure(dax_state *ds, int argc, char **argv, int flags)
         dax_set_attr(ds, "confdir", ETC_DIR);
     }
     /* If we set the name on the command line then we'll use it here */
-    if(dax_get_attr(ds, "name") != NULL) {
-        free(ds->modulename);
-        ds->modulename = strdup(dax_get_attr(ds, "name"));
-        if(ds->modulename==NULL) return ERR_ALLOC;
-    }
+    if(_set_name(ds)) return ERR_ALLOC;
     if(flags & CFG_MODCONF) {
         dax_log_set_lua_function(ds->L);
         result = _mod_config_file(ds);
+        /* The name may have been set in the configuration file too */
+        if(_set_name(ds)) return ERR_ALLOC;
     }
     _set_defaults(ds);
     //_print_config(ds);
@@ -620,7 +648,7 @@ dax_set_attr(dax_state *ds, char *name, char *value)
         if(!strcmp(this->name, name)) {
             if(this->value != NULL) free(this->value);
             if(value == NULL) {
-                this->value = strdup(this->defvalue);
+                this->value = this->defvalue ? strdup(this->defvalue) : NULL;
             } else {
                 this->value = strdup(value);
             }
-- 
2.43.0


From be662a9eda7f1eec9ae7fe9ee22c3e079e89c222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:31 +0000
Subject: [PATCH 28/64] fix: client library: other threads kept using a
 connection that was being opened again

---
 src/lib/libcdt.c  | 74 ++++++++++++++++++++++++++++++++++++++++++++---
 src/lib/libdax.h  |  3 ++
 src/lib/libinit.c |  2 ++
 src/lib/libmsg.c  | 16 ++++++----
 4 files changed, 86 insertions(+), 9 deletions(-)

diff --git a/src/lib/libcdt.c b/src/lib/libcdt.c
index 1045fcf..e862a9b 100644
--- a/src/lib/libcdt.c
+++ b/src/lib/libcdt.c
@@ -172,7 +172,61 @@ get_cdt_pointer(dax_state *ds, tag_type type, int *error)
     }
 }
 
-/* Forget all of the datatypes that we know about */
+/* Forget all of the datatypes that we know about but don't free them because
+ * other threads might still be using their names and their members.  If the
+ * server still has the same type then we'll use it again. */
+void
+retire_datatypes(dax_state *ds)
+{
+    unsigned int n;
+    datatype *new;
+
+    pthread_mutex_lock(&ds->lock);
+    if(ds->datatype_size == 0) {
+        pthread_mutex_unlock(&ds->lock);
+        return;
+    }
+    new = realloc(ds->old_datatypes, (ds->old_datatype_count + ds->datatype_size) * sizeof(datatype));
+    if(new != NULL) {
+        ds->old_datatypes = new;
+        for(n = 0; n < ds->datatype_size; n++) {
+            if(ds->datatypes[n].name != NULL) {
+                ds->old_datatypes[ds->old_datatype_count++] = ds->datatypes[n];
+            }
+        }
+    }
+    free(ds->datatypes);
+    ds->datatypes = NULL;
+    ds->datatype_size = 0;
+    pthread_mutex_unlock(&ds->lock);
+}
+
+/* If we already had this datatype with some other connection it is removed
+ * from the old ones and given back to us in dt */
+static int
+_find_old_datatype(dax_state *ds, char *name, cdt_member *members, datatype *dt)
+{
+    unsigned int n;
+    cdt_member *a, *b;
+
+    for(n = 0; n < ds->old_datatype_count; n++) {
+        if(strcmp(ds->old_datatypes[n].name, name)) continue;
+        a = ds->old_datatypes[n].members;
+        b = members;
+        while(a != NULL && b != NULL && a->type == b->type && a->count == b->count && !strcmp(a->name, b->name)) {
+            a = a->next;
+            b = b->next;
+        }
+        if(a == NULL && b == NULL) {
+            *dt = ds->old_datatypes[n];
+            ds->old_datatypes[n] = ds->old_datatypes[--ds->old_datatype_count];
+            return 1;
+        }
+    }
+    return 0;
+}
+
+/* Frees all of the datatypes that we know about */
 void
 free_datatypes(dax_state *ds)
 {
@@ -186,6 +240,13 @@ free_datatypes(dax_state *ds)
     free(ds->datatypes);
     ds->datatypes = NULL;
     ds->datatype_size = 0;
+    for(n = 0; n < ds->old_datatype_count; n++) {
+        free(ds->old_datatypes[n].name);
+        if(ds->old_datatypes[n].members != NULL) _cdt_member_free(ds->old_datatypes[n].members);
+    }
+    free(ds->old_datatypes);
+    ds->old_datatypes = NULL;
+    ds->old_datatype_count = 0;
     pthread_mutex_unlock(&ds->lock);
 }
 
@@ -249,6 +310,11 @@ add_cdt_to_cache(dax_state *ds, tag_type type, char *typedesc)
         return result;
     }
     /* At this point we should have the spot for the datatype */
+    if(_find_old_datatype(ds, name, members, &ds->datatypes[index])) {
+        if(members != NULL) _cdt_member_free(members);
+        free(name);
+        return 0;
+    }
     ds->datatypes[index].members = members;
     ds->datatypes[index].name = name;
     //DF("add_cdt_to_cache() type = 0x%X, name = %s", type, typedesc);
@@ -606,7 +672,7 @@ _parse_handle(dax_state *ds, tag_handle *h, char *str, int count)
     }
 
     result = dax_tag_byname(ds, &tag, name);
-    if(result) return ERR_NOTFOUND;
+    if(result) return result;
     h->index = tag.idx; /* This index is the database index */
     type = tag.type;
     items = tag.count;
@@ -639,8 +705,8 @@ _parse_handle(dax_state *ds, tag_handle *h, char *str, int count)
         if(index < 0 && index != ERR_NOTFOUND) {
             return index;
         }
-        dtype = get_cdt_pointer(ds, type, NULL);
-        if(dtype == NULL) return ERR_NOTFOUND; /* This is a serious problem here */
+        dtype = get_cdt_pointer(ds, type, &result);
+        if(dtype == NULL) return result; /* This is a serious problem here */
         for(this = dtype->members; this != NULL; this = this->next) {
             if(this->type != DAX_BOOL) {
                 pos = (pos + 7) / 8 * 8; /* Align to the next byte */
diff --git a/src/lib/libdax.h b/src/lib/libdax.h
index 8c3dc23..c893540 100644
--- a/src/lib/libdax.h
+++ b/src/lib/libdax.h
@@ -115,6 +115,8 @@ struct dax_state {
     int cache_count;       /* How many nodes we actually have */
     datatype *datatypes;
     unsigned int datatype_size;
+    datatype *old_datatypes;    /* Those of the connections that we had before */
+    unsigned int old_datatype_count;
     int cdt_depth;         /* How deep we are in retrieving nested datatypes */
     pthread_mutex_t lock;
     pthread_t connection_thread;
@@ -210,6 +212,7 @@ int add_event(dax_state *ds, dax_id id, void *udata, void (*callback)(dax_state
 int del_event(dax_state *ds, dax_id id);
 void clear_events(dax_state *ds);
 void free_datatypes(dax_state *ds);
+void retire_datatypes(dax_state *ds);
 int exec_event(dax_state *ds, dax_id id);
 
 int group_read_format(dax_state *ds, tag_group_id *id, uint8_t *buff);
diff --git a/src/lib/libinit.c b/src/lib/libinit.c
index 5b66332..4825741 100644
--- a/src/lib/libinit.c
+++ b/src/lib/libinit.c
@@ -64,6 +64,8 @@ dax_init(const char *name)
     /* datatype list */
     ds->datatypes = NULL;
     ds->datatype_size = 0;
+    ds->old_datatypes = NULL;
+    ds->old_datatype_count = 0;
     ds->cdt_depth = 0;
     /* Event list array */
     ds->events = malloc(sizeof(event_db));
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index ba4ff46..633114f 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -39,12 +39,14 @@ _message_send(dax_state *ds, int command, void *payload, size_t size)
 {
     ssize_t result;
     size_t sent = 0;
+    int fd;
     char buff[DAX_MSGMAX];
 
     if(size > MSG_DATA_SIZE) return ERR_2BIG;
 
     pthread_mutex_lock(&ds->msg_lock);
-    if(ds->sfd < 0) {
+    fd = ds->sfd;
+    if(fd < 0) {
         pthread_mutex_unlock(&ds->msg_lock);
         return ERR_DISCONNECTED;
     }
@@ -61,13 +63,13 @@ _message_send(dax_state *ds, int command, void *payload, size_t size)
 
     /* The socket has a send timeout so this can't block forever. */
     while(sent < size + MSG_HDR_SIZE) {
-        result = send(ds->sfd, &buff[sent], size + MSG_HDR_SIZE - sent, MSG_NOSIGNAL);
+        result = send(fd, &buff[sent], size + MSG_HDR_SIZE - sent, MSG_NOSIGNAL);
         if(result < 0) {
             if(errno == EINTR) continue;
             dax_log(DAX_LOG_ERROR, "_message_send: %s", strerror(errno));
             /* We can't leave a partial message in the stream so this
              * connection is of no more use to us. */
-            if(sent > 0) shutdown(ds->sfd, SHUT_RDWR);
+            if(sent > 0) shutdown(fd, SHUT_RDWR);
             return ERR_MSG_SEND;
         }
         sent += result;
@@ -489,7 +491,7 @@ dax_connect(dax_state *ds)
     /* The data types and the events that we know about are those
      * of the server that we were connected to. */
     clear_events(ds);
-    free_datatypes(ds);
+    retire_datatypes(ds);
 
     fd = _get_connection(ds);
     if(fd < 0) {
@@ -497,7 +499,9 @@ dax_connect(dax_state *ds)
         return fd;
     }
     /* This is the connection that we use for all the functional
-     * request / response messages. */
+     * request / response messages.  The lock keeps the other threads from
+     * using it until the registration is finished. */
+    pthread_mutex_lock(&ds->lock);
     pthread_mutex_lock(&ds->msg_lock);
     ds->sfd = fd;
     ds->late_count = 0;
@@ -522,8 +526,10 @@ dax_connect(dax_state *ds)
         ds->sfd = -1;
         pthread_mutex_unlock(&ds->msg_lock);
         close(fd);
+        pthread_mutex_unlock(&ds->lock);
         return result;
     }
+    pthread_mutex_unlock(&ds->lock);
     opt_lua_init_func(ds);
 
     return 0;
-- 
2.43.0


From 09ccdd64d2c9d4cee6790a77195cebf1ba5945b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:12 +0000
Subject: [PATCH 29/64] fix: server -T option, command line 0.0.0.0 and
 repeated options

---
 src/server/options.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/server/options.c b/src/server/options.c
index 6672b0b..7263b97 100644
--- a/src/server/options.c
+++ b/src/server/options.c
@@ -34,6 +34,7 @@
 static char *_configfile;
 static char *_socketname;
 static struct in_addr _serverip;
+static int _serverip_set; /* 0.0.0.0 is a perfectly good address */
 static unsigned int _serverport;
 static char *_mod_tag_exclude;
 static int _min_buffers;
@@ -45,6 +46,7 @@ static void initconfig(void) {
     _min_buffers = 0;
     _socketname = NULL;
     _serverip.s_addr = 0;
+    _serverip_set = 0;
     _serverport = 0;
     _mod_tag_exclude = NULL;
 }
@@ -57,7 +59,7 @@ setdefaults(void)
     if(!_min_buffers) _min_buffers = DEFAULT_MIN_BUFFERS;
     if(!_socketname) _socketname = strdup("/tmp/opendax");
     if(!_serverport) _serverport = DEFAULT_PORT;
-    if(!_serverip.s_addr) inet_aton("0.0.0.0", &_serverip);
+    if(!_serverip_set) inet_aton("0.0.0.0", &_serverip);
 }
 
 /* This function parses the command line options and sets
@@ -65,7 +67,7 @@ setdefaults(void)
 static void
 parsecommandline(int argc, const char *argv[])
 {
-    char c;
+    int c;
 
     static struct option options[] = {
         {"configfile", required_argument, 0, 'C'},
@@ -80,19 +82,23 @@ parsecommandline(int argc, const char *argv[])
     };
 
 /* Get the command line arguments */
-    while ((c = getopt_long (argc, (char * const *)argv, "C:K:S:I:P:X:Vv", options, NULL)) != -1) {
+    while ((c = getopt_long (argc, (char * const *)argv, "C:T:S:I:P:X:Vv", options, NULL)) != -1) {
         switch (c) {
         case 'C':
+            free(_configfile);
             _configfile = strdup(optarg);
             break;
         case 'T':
-            dax_log_set_default_topics(strdup(optarg));
+            dax_log_set_default_topics(optarg);
             break;
         case 'S':
+            free(_socketname);
             _socketname = strdup(optarg);
             break;
         case 'I':
-            if(! inet_aton(optarg, &_serverip)) {
+            if(inet_aton(optarg, &_serverip)) {
+                _serverip_set = 1;
+            } else {
                 dax_log(DAX_LOG_ERROR, "Unknown IP address %s", optarg);
             }
             break;
@@ -100,6 +106,7 @@ parsecommandline(int argc, const char *argv[])
             _serverport = strtol(optarg, NULL, 0);
             break;
         case 'X':
+            free(_mod_tag_exclude);
             _mod_tag_exclude=strdup(optarg);
             break;
         case 'V':
@@ -152,10 +159,13 @@ readconfigfile(void)
 
     lua_pushstring(L, "tagserver");
     lua_setglobal(L, CONFIG_GLOBALNAME);
+    lua_pushstring(L, ETC_DIR);
+    lua_setglobal(L, "configdir");
 
     /* load and run the configuration file */
     if(luaL_loadfile(L, _configfile)  || lua_pcall(L, 0, 0, 0)) {
         dax_log(DAX_LOG_ERROR, "Problem executing configuration file - %s", lua_tostring(L, -1));
+        lua_close(L);
         return 1;
     }
 
@@ -179,10 +189,12 @@ readconfigfile(void)
     lua_pop(L, 1);
 
     lua_getglobal(L, "serverip");
-    if(_serverip.s_addr == 0) {
+    if(! _serverip_set) {
         c = (char *)lua_tostring(L, -1);
         if(c) {
-            if(! inet_aton(c, &_serverip)) {
+            if(inet_aton(c, &_serverip)) {
+                _serverip_set = 1;
+            } else {
                 dax_log(DAX_LOG_ERROR, "Unknown IP address %s", c);
             }
         }
-- 
2.43.0


From ea9371b3f93c870ebc9156d122984362742393cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:12 +0000
Subject: [PATCH 30/64] fix: dax_set_attr with the attribute's own value

---
 src/lib/libopt.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/libopt.c b/src/lib/libopt.c
index 5ac4816..a649ee0 100644
--- a/src/lib/libopt.c
+++ b/src/lib/libopt.c
@@ -642,16 +642,18 @@ int
 dax_set_attr(dax_state *ds, char *name, char *value)
 {
     optattr *this;
+    char *old;
 
     this = ds->attr_head;
     while(this != NULL) {
         if(!strcmp(this->name, name)) {
-            if(this->value != NULL) free(this->value);
+            old = this->value; /* It might be what we have been given */
             if(value == NULL) {
                 this->value = this->defvalue ? strdup(this->defvalue) : NULL;
             } else {
                 this->value = strdup(value);
             }
+            free(old);
             return 0;
         }
         this = this->next;
-- 
2.43.0


From da44d6706203950cd2babd0cbcc434fe83cfa3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:07 +0000
Subject: [PATCH 31/64] fix: Lua conversions: REAL and 64 bit values,
 unsuitable values, short strings, deep datatypes

---
 src/lib/lua/libdaxlua.c | 315 +++++++++++++++++++++-------------------
 1 file changed, 162 insertions(+), 153 deletions(-)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index ceacb2d..09d5625 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -61,8 +61,12 @@ struct iter_udata {
     void *data;
     void *mask;
     int error;
+    char member[DAX_TAGNAME_SIZE + 1]; /* Where the error is */
 };
 
+/* Stack slots that each level of a nested datatype may use */
+#define STACK_NEEDED 8
+
 /* This function figures out what type of data the tag is and translates
  * buff appropriately and pushes the value onto the lua stack */
 static inline void
@@ -93,11 +97,12 @@ _read_to_stack(lua_State *L, tag_type type, void *buff)
             lua_pushinteger(L, (lua_Integer)*((dax_dint *)buff));
             break;
         case DAX_REAL:
-            lua_pushnumber(L, (lua_Integer)*((dax_real *)buff));
+            lua_pushnumber(L, *((dax_real *)buff));
             break;
         case DAX_LWORD:
         case DAX_ULINT:
-            lua_pushnumber(L, (lua_Integer)*((dax_ulint *)buff));
+            /* Lua integers are signed, a float would lose the low bits */
+            lua_pushinteger(L, (lua_Integer)*((dax_ulint *)buff));
             break;
         case DAX_TIME:
         case DAX_LINT:
@@ -111,11 +116,7 @@ _read_to_stack(lua_State *L, tag_type type, void *buff)
 
 static void
 _push_string(lua_State *L, cdt_iter tag, void *data) {
-    char s[tag.count+1];
-
-    memcpy(s, data, tag.count);
-    s[tag.count] = '\0';
-    lua_pushstring(L, s);
+    lua_pushlstring(L, data, strnlen(data, tag.count));
 }
 
 
@@ -175,6 +176,11 @@ _read_callback(cdt_iter member, void *udata)
     int offset, n;
     struct iter_udata newdata;
 
+    if(((struct iter_udata *)udata)->error) return;
+    if(! lua_checkstack(L, STACK_NEEDED)) {
+        ((struct iter_udata *)udata)->error = ERR_ALLOC;
+        return;
+    }
     lua_pushstring(L, member.name);
 
     if(IS_CUSTOM(member.type)) {
@@ -214,6 +220,7 @@ daxlua_dax_to_lua(lua_State *L, tag_handle h, void *data)
     struct iter_udata udata;
     int offset, n;
 
+    luaL_checkstack(L, STACK_NEEDED, NULL);
     udata.L = L;
     udata.data = data;
     udata.mask = NULL;
@@ -244,89 +251,113 @@ daxlua_dax_to_lua(lua_State *L, tag_handle h, void *data)
 
 /* Here begin the tag writing functions.  */
 
+/* Retrieves the number at the top of the stack as an integer.  Fractions are
+ * dropped and the numbers above the range of a Lua integer that would fit in
+ * an unsigned 64 bit tag are okay.  Returns non-zero if it isn't a number or
+ * if it's one that has no place in 64 bits. */
+static inline int
+_to_integer(lua_State *L, uint64_t *x)
+{
+    lua_Number number;
+    int isnum;
+
+    *x = (uint64_t)lua_tointegerx(L, -1, &isnum);
+    if(isnum) return 0;
+    number = lua_tonumberx(L, -1, &isnum);
+    if(! isnum) return ERR_ARG;
+    if(number >= -9223372036854775808.0 && number < 9223372036854775808.0) {
+        *x = (uint64_t)(int64_t)number;
+    } else if(number >= 9223372036854775808.0 && number < 18446744073709551616.0) {
+        *x = (uint64_t)number;
+    } else {
+        return ERR_ARG;
+    }
+    return 0;
+}
+
 /* Takes the Lua value at the top of the stack, converts it and places it
- * in the proper place in data.  The mask is set as well.  */
-static inline void
+ * in the proper place in data.  The mask is set as well.  Integers that are
+ * too big for the type are cut to the size of the type.  Returns non-zero
+ * and changes nothing if the value can't be converted */
+static inline int
 _write_from_stack(lua_State *L, unsigned int type, void *data, void *mask, int index)
 {
-    lua_Integer x;
+    uint64_t x;
+    lua_Number number;
+    int isnum;
 
     assert(mask != NULL);
+    if(type == DAX_REAL || type == DAX_LREAL) {
+        number = lua_tonumberx(L, -1, &isnum);
+        if(! isnum) return ERR_ARG;
+        if(type == DAX_REAL) {
+            ((dax_real *)data)[index] = (dax_real)number;
+            ((uint32_t *)mask)[index] = 0xFFFFFFFF;
+        } else {
+            ((dax_lreal *)data)[index] = number;
+            ((uint64_t *)mask)[index] = DAX_64_ONES;
+        }
+        return 0;
+    }
+    if(_to_integer(L, &x)) return ERR_ARG;
+
     switch (type) {
         case DAX_BYTE:
-            x = lua_tointeger(L, -1) % 256;
-            ((dax_byte *)data)[index] = x;
-            ((dax_byte *)mask)[index] = 0xFF;
-            break;
         case DAX_SINT:
         case DAX_CHAR:
-            x = lua_tointeger(L, -1) % 256;
-            ((dax_sint *)data)[index] = x;
-            ((dax_sint *)mask)[index] = 0xFF;
+            ((dax_byte *)data)[index] = x;
+            ((dax_byte *)mask)[index] = 0xFF;
             break;
         case DAX_WORD:
         case DAX_UINT:
-            ((dax_uint *)data)[index] = lua_tonumber(L, -1);
-            ((dax_uint *)mask)[index] = 0xFFFF;
-            break;
         case DAX_INT:
-            ((dax_int *)data)[index] = lua_tonumber(L, -1);
-            ((dax_int *)mask)[index] = 0xFFFF;
+            ((dax_uint *)data)[index] = x;
+            ((dax_uint *)mask)[index] = 0xFFFF;
             break;
         case DAX_DWORD:
         case DAX_UDINT:
-        case DAX_TIME:
-            ((dax_udint *)data)[index] = lua_tonumber(L, -1);
-            ((dax_udint *)mask)[index] = 0xFFFFFFFF;
-            break;
         case DAX_DINT:
-            ((dax_dint *)data)[index] = lua_tonumber(L, -1);
-            ((dax_dint *)mask)[index] = 0xFFFFFFFF;
-            break;
-        case DAX_REAL:
-            ((dax_real *)data)[index] = (dax_real)lua_tonumber(L, -1);
-            ((uint32_t *)mask)[index] = 0xFFFFFFFF;
+            ((dax_udint *)data)[index] = x;
+            ((dax_udint *)mask)[index] = 0xFFFFFFFF;
             break;
         case DAX_LWORD:
         case DAX_ULINT:
-            ((dax_ulint *)data)[index] = lua_tonumber(L, -1);
-            ((dax_ulint *)mask)[index] = DAX_64_ONES;
-            break;
         case DAX_LINT:
-            ((dax_lint *)data)[index] = lua_tonumber(L, -1);
-            ((dax_lint *)mask)[index] = DAX_64_ONES;
-            break;
-        case DAX_LREAL:
-            ((dax_lreal *)data)[index] = lua_tonumber(L, -1);
-            ((uint64_t *)mask)[index] = DAX_64_ONES;
+        case DAX_TIME:
+            ((dax_ulint *)data)[index] = x;
+            ((dax_ulint *)mask)[index] = DAX_64_ONES;
             break;
+        default:
+            return ERR_ARG;
     }
+    return 0;
 }
 
 
-/* This function reads the variable from the top of the Lua stack
-   and sends it to the opendax tag given by *tagname */
-int
+/* This function reads the variable from the top of the Lua stack and places
+ * it in data and mask.  The stack is left as it was found.  Returns non-zero
+ * if the variable can't be used for this tag */
+static int
 _pop_base_datatype(lua_State *L, cdt_iter tag, void *data, void *mask)
 {
-    int n, bit;
+    int n, bit, result = 0;
     size_t len;
     const char *s;
 
     if(tag.count > 1) { /* The tag is an array */
-        if(lua_type(L, -1) == LUA_TSTRING) {
+        if(lua_type(L, -1) == LUA_TSTRING && tag.type == DAX_CHAR) {
             s = lua_tolstring(L, -1, &len);
-            memcpy(data, s, tag.count<len ? tag.count : len);
+            if(len > tag.count) len = tag.count;
+            memcpy(data, s, len);
+            memset((char *)data + len, 0x00, tag.count - len); /* A short string replaces all of it */
             memset(mask, 0xFF, tag.count); /* Change it all */
         } else {
-            /* Check that the second parameter is a table */
             if( ! lua_istable(L, -1) ) {
-                lua_pushfstring(L, "Table needed to set tag");
-                return -1;
+                return ERR_ARG;
             }
             /* We're just searching for indexes in the table.  Anything
              * other than numerical indexes in the table don't count */
-            for(n = 0; n < tag.count; n++) {
+            for(n = 0; n < tag.count && result == 0; n++) {
                 lua_rawgeti(L, -1, n + 1);
                 if(! lua_isnil(L, -1)) {
                     if(tag.type == DAX_BOOL) {
@@ -340,7 +371,7 @@ _pop_base_datatype(lua_State *L, cdt_iter tag, void *data, void *mask)
                         ((uint8_t *)mask)[bit/8] |= (1 << (bit % 8));
                     } else {
                         /* Handle the non-boolean */
-                        _write_from_stack(L, tag.type, data, mask, n);
+                        result = _write_from_stack(L, tag.type, data, mask, n);
                     }
                 }
                 lua_pop(L, 1);
@@ -356,10 +387,52 @@ _pop_base_datatype(lua_State *L, cdt_iter tag, void *data, void *mask)
             }
             ((uint8_t *)mask)[bit/8] |= (1 << (bit % 8));
         } else {
-            _write_from_stack(L, tag.type, data, mask, 0);
+            result = _write_from_stack(L, tag.type, data, mask, 0);
         }
     }
-    return 0;
+    return result;
+}
+
+static void _write_callback(cdt_iter member, void *udata);
+
+/* Converts the table at the top of the stack to one compound datatype.  The
+ * stack is left as it was found and the errors are in udata */
+static void
+_write_cdt(struct iter_udata *udata, tag_type type, const char *name)
+{
+    if(lua_istable(udata->L, -1)) {
+        dax_cdt_iter(_get_state(udata->L), type, udata, _write_callback);
+    } else if(! lua_isnil(udata->L, -1)) { /* nil means that it's left alone */
+        udata->error = ERR_ARG;
+        snprintf(udata->member, sizeof(udata->member), "%s", name);
+    }
+}
+
+/* Same as above but for an array of them */
+static void
+_write_cdt_array(struct iter_udata *udata, tag_type type, int count, const char *name)
+{
+    unsigned char *data = udata->data;
+    unsigned char *mask = udata->mask;
+    int size, n;
+
+    if(count <= 1) {
+        _write_cdt(udata, type, name);
+        return;
+    }
+    if(lua_isnil(udata->L, -1)) return;
+    if(! lua_istable(udata->L, -1)) {
+        _write_cdt(udata, type, name); /* Can't be, this deals with the error */
+        return;
+    }
+    size = dax_get_typesize(_get_state(udata->L), type);
+    for(n = 0; n < count && udata->error == 0; n++) {
+        udata->data = data + n * size;
+        udata->mask = mask + n * size;
+        lua_rawgeti(udata->L, -1, n + 1);
+        _write_cdt(udata, type, name);
+        lua_pop(udata->L, 1);
+    }
 }
 
 /* This is the recursive callback function that is passed to
@@ -368,73 +441,34 @@ _pop_base_datatype(lua_State *L, cdt_iter tag, void *data, void *mask)
 static void
 _write_callback(cdt_iter member, void *udata)
 {
-    dax_state *ds = _get_state(((struct iter_udata *)udata)->L);
+    struct iter_udata *this = (struct iter_udata *)udata;
     struct iter_udata newdata;
+    lua_State *L = this->L;
 
-    lua_State *L = ((struct iter_udata *)udata)->L;
-    unsigned char *data = ((struct iter_udata *)udata)->data;
-    unsigned char *mask = ((struct iter_udata *)udata)->mask;
-    int offset, n, result = 0;
-
+    if(this->error) return;
+    if(! lua_checkstack(L, STACK_NEEDED)) {
+        this->error = ERR_ALLOC;
+        return;
+    }
+    lua_pushstring(L, member.name);
+    lua_rawget(L, -2);
     if(IS_CUSTOM(member.type)) {
         newdata.L = L;
         newdata.error = 0;
-        lua_pushstring(L, member.name);
-        lua_rawget(L, -2);
-        if(member.count > 1) {
-            for(n = 0;n < member.count; n++) {
-                offset = member.byte + (n * dax_get_typesize(ds, member.type));
-                newdata.data = (char *)data + offset;
-                newdata.mask = (char *)mask + offset;
-                if( ! lua_istable(L, -1) ) {
-                    lua_pushfstring(L, "Table needed to set - %s", member.name);
-                    ((struct iter_udata *)udata)->error = -1;
-                    return;
-                }
-                lua_rawgeti(L, -1, n+1);
-                if(! lua_isnil(L, -1)) {
-                    if( ! lua_istable(L, -1) ) {
-                        lua_pop(L, 1);
-                        lua_pushfstring(L, "Table needed to set - %s", member.name);
-                        ((struct iter_udata *)udata)->error = -1;
-                        return;
-                    }
-                    dax_cdt_iter(ds, member.type, &newdata , _write_callback);
-                }
-                lua_pop(L, 1);
-                if(newdata.error) {
-                    ((struct iter_udata *)udata)->error = newdata.error;
-                    return;
-                }
-            }
-        } else {
-            newdata.data = (char *)data + member.byte;
-            newdata.mask = (char *)mask + member.byte;
-            if(! lua_isnil(L, -1)) {
-                if( ! lua_istable(L, -1) ) {
-                    lua_pushfstring(L, "Table needed to set - %s", member.name);
-                    ((struct iter_udata *)udata)->error = -1;
-                    return;
-                }
-                dax_cdt_iter(ds, member.type, &newdata, _write_callback);
-            }
-            if(newdata.error) {
-                ((struct iter_udata *)udata)->error = newdata.error;
-                return;
-            }
+        newdata.data = (char *)this->data + member.byte;
+        newdata.mask = (char *)this->mask + member.byte;
+        _write_cdt_array(&newdata, member.type, member.count, member.name);
+        if(newdata.error) {
+            this->error = newdata.error;
+            strcpy(this->member, newdata.member);
         }
-        lua_pop(L, 1);
-    } else {
-        lua_pushstring(L, member.name);
-        lua_rawget(L, -2);
-        if(! lua_isnil(L, -1)) {
-            result = _pop_base_datatype(L, member, data + member.byte, mask + member.byte);
+    } else if(! lua_isnil(L, -1)) {
+        if(_pop_base_datatype(L, member, (char *)this->data + member.byte, (char *)this->mask + member.byte)) {
+            this->error = ERR_ARG;
+            snprintf(this->member, sizeof(this->member), "%s", member.name);
         }
-        lua_pop(L, 1);
-    }
-    if(result) {
-        ((struct iter_udata *)udata)->error = result;
     }
+    lua_pop(L, 1);
 }
 
 /* Main function that takes the tag on the top of the given Lua stack
@@ -446,61 +480,36 @@ _write_callback(cdt_iter member, void *udata)
  * is called directly and write is complete.  If the tag is a compound
  * datatype then the top level is taken care of and then it's turned
  * over to the recursive write_callback() function through the
- * cdt iterator. */
+ * cdt iterator.
+ * On failure it returns non-zero and there is an error message at the top
+ * of the stack above the value. */
 int
 daxlua_lua_to_dax(lua_State *L, tag_handle h, void* data, void *mask)
 {
-    dax_state *ds = _get_state(L);
     cdt_iter tag;
     struct iter_udata udata;
-    int n, offset;
 
+    luaL_checkstack(L, STACK_NEEDED, NULL);
     if(IS_CUSTOM(h.type)) {
         udata.L = L;
         udata.error = 0;
-        if(h.count > 1) {
-            for(n = 0; n < h.count; n++) {
-                offset = n * dax_get_typesize(ds, h.type);
-                udata.data = (char *)data + offset;
-                udata.mask = (char *)mask + offset;
-                if( ! lua_istable(L, -1) ) {
-                    lua_pushfstring(L, "Table needed to set Tag");
-                    return -1;
-                }
-                lua_rawgeti(L, -1, n+1);
-                if(! lua_isnil(L, -1)) {
-                    if( ! lua_istable(L, -1) ) {
-                        lua_pop(L, 1);
-                        lua_pushstring(L, "Table needed to set tag");
-                        return -1;
-                    }
-                    dax_cdt_iter(ds, h.type, &udata , _write_callback);
-                }
-                lua_pop(L, 1);
-                if(udata.error) {
-                    return udata.error;
-                }
-            }
-        } else { /* Only one CDT */
-            udata.data = data;
-            udata.mask = mask;
-            if(! lua_isnil(L, -1)) {
-                if( ! lua_istable(L, -1) ) {
-                    lua_pushstring(L, "Table needed to set Tag");
-                    return -1;
-                }
-                dax_cdt_iter(ds, h.type, &udata, _write_callback);
-            }
-            if(udata.error) {
-                return udata.error;
-            }
+        udata.data = data;
+        udata.mask = mask;
+        udata.member[0] = '\0';
+        _write_cdt_array(&udata, h.type, h.count, "Tag");
+        if(udata.error) {
+            lua_pushfstring(L, "Can't use %s to set - %s", luaL_typename(L, -1), udata.member);
+            return -1;
         }
     } else { /* Base data type */
         tag.count = h.count;
         tag.type = h.type;
         tag.byte = 0;
         tag.bit = 0;
-        return _pop_base_datatype(L, tag, data, mask);
+        if(_pop_base_datatype(L, tag, data, mask)) {
+            lua_pushfstring(L, h.count > 1 ? "Table of numbers needed to set tag, got %s" : "Number needed to set tag, got %s", luaL_typename(L, -1));
+            return -1;
+        }
     }
     return 0;
 }
-- 
2.43.0


From 9c716c8c56d721459e0a9fa22a335746b8862f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:07 +0000
Subject: [PATCH 32/64] fix: Lua bindings: unchecked arguments, lost memory,
 errors and coroutines in event functions, dax.free() twice

---
 src/lib/lua/libdaxlua.c | 897 +++++++++++++++++-----------------------
 1 file changed, 380 insertions(+), 517 deletions(-)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index 09d5625..9cdd25d 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -22,6 +22,7 @@
  */
 
 #include "libdaxlua.h"
+#include <limits.h>
 
 /* The dax_state that is used by interpreters that haven't been given one of
  * their own with daxlua_set_state() or dax.init() */
@@ -498,7 +499,7 @@ daxlua_lua_to_dax(lua_State *L, tag_handle h, void* data, void *mask)
         udata.member[0] = '\0';
         _write_cdt_array(&udata, h.type, h.count, "Tag");
         if(udata.error) {
-            lua_pushfstring(L, "Can't use %s to set - %s", luaL_typename(L, -1), udata.member);
+            lua_pushfstring(L, "Wrong kind of value to set - %s", udata.member);
             return -1;
         }
     } else { /* Base data type */
@@ -516,79 +517,172 @@ daxlua_lua_to_dax(lua_State *L, tag_handle h, void* data, void *mask)
 
 /* These are the functions that get exported */
 
+/* Returns the connection of this interpreter or raises an error */
+static dax_state *
+_need_state(lua_State *L)
+{
+    dax_state *ds = _get_state(L);
+
+    if(ds == NULL) {
+        luaL_error(L, "OpenDAX is not initialized");
+    }
+    return ds;
+}
+
+/* Returns the given argument as an item count, 'def' if it's missing */
+static int
+_get_count(lua_State *L, int arg, int def)
+{
+    lua_Integer count;
+
+    count = luaL_optinteger(L, arg, def);
+    luaL_argcheck(L, count >= 0 && count <= INT_MAX, arg, "count out of range");
+    return count;
+}
+
+/* The given argument can either be a handle or a string that represents a tag.
+ * If it's a string then the handle is retrieved and stored in 'h' */
+static tag_handle *
+_get_handle(lua_State *L, dax_state *ds, int arg, int count, tag_handle *h)
+{
+    tag_handle *hp;
+    int result, size;
+
+    if(lua_isuserdata(L, arg)) {
+        hp = luaL_checkudata(L, arg, "OpenDAX.handle");
+        /* A handle might be from a connection that is gone and what it's
+         * datatype means now might not be what it meant then. */
+        if(IS_CUSTOM(hp->type)) {
+            size = dax_get_typesize(ds, hp->type);
+            if(size <= 0 || (int64_t)size * hp->count > hp->size) {
+                luaL_error(L, "handle is no longer valid");
+            }
+        }
+        return hp;
+    }
+    result = dax_tag_handle(ds, h, (char *)luaL_checkstring(L, arg), count);
+    if(result) {
+        luaL_error(L, "dax_tag_handle() returned %d", result);
+    }
+    return h;
+}
+
+/* Places a new handle on the stack */
+static tag_handle *
+_new_handle(lua_State *L)
+{
+    tag_handle *h;
+
+    h = (tag_handle *)lua_newuserdata(L, sizeof(tag_handle));
+    bzero(h, sizeof(tag_handle));
+    luaL_getmetatable(L, "OpenDAX.handle");
+    lua_setmetatable(L, -2);
+    return h;
+}
+
+/* Allocates memory that belongs to the interpreter so that it's not lost when
+ * an error is raised.  It's pushed onto the stack. */
+static void *
+_new_buffer(lua_State *L, size_t size)
+{
+    void *buff;
+
+    buff = lua_newuserdata(L, size > 0 ? size : 1);
+    bzero(buff, size);
+    return buff;
+}
+
+/* Gets the event, map... identifier from the table given as the argument */
+static dax_id
+_get_id(lua_State *L, int arg)
+{
+    dax_id id;
+
+    luaL_checktype(L, arg, LUA_TTABLE);
+    lua_rawgeti(L, arg, 1); /* Get the index from the table */
+    id.index = lua_tointeger(L, -1);
+    lua_rawgeti(L, arg, 2); /* Get the id from the table */
+    id.id = lua_tointeger(L, -1);
+    lua_pop(L, 2);
+    return id;
+}
+
+static void
+_push_id(lua_State *L, dax_id id)
+{
+    lua_createtable(L, 2, 0);
+    lua_pushinteger(L, id.index);
+    lua_rawseti(L, -2, 1);
+    lua_pushinteger(L, id.id);
+    lua_rawseti(L, -2, 2);
+}
+
 static int
 _dax_init(lua_State *L)
 {
     dax_state *ds;
     char *modulename;
-    int n, len;
-    int argc;
+    int n, len, args, result;
     char **argv;
     char *key;
     char *value;
 
-    modulename = (char *)lua_tostring(L, 1);
-    if(modulename == NULL) {
-        luaL_error(L, "Module name not given");
+    modulename = (char *)luaL_checkstring(L, 1);
+    if(! lua_isnoneornil(L, 2)) {
+        luaL_checktype(L, 2, LUA_TTABLE);
     }
     /* Get the global Lua table 'arg' and assign all of the values in that
-     * table to argv */
+     * table to argv.  The strings belong to Lua and stay on the stack until
+     * we are done. */
     lua_getglobal(L, "arg");
-    lua_len(L, -1);
-    len = lua_tointeger(L, -1);
-    lua_pop(L, 1);
-
-    argv = malloc(sizeof(char *) * (len+1));
-    argc = len+1;
-    if(argv == NULL) {
-        luaL_error(L, "Failed to allocate memory for command line arguments");
-    }
-    argv[0] = strdup(modulename);
-    for(n=1;n<=len;n++) {
-        lua_rawgeti(L, -1, n);
-        argv[n]=strdup(lua_tostring(L, -1));
-        lua_pop(L, 1);
+    args = lua_gettop(L);
+    len = lua_istable(L, args) ? lua_rawlen(L, args) : 0;
+    luaL_checkstack(L, len + 10, "too many arguments");
+    argv = _new_buffer(L, sizeof(char *) * (len + 2));
+    argv[0] = modulename;
+    for(n = 1; n <= len; n++) {
+        lua_rawgeti(L, args, n);
+        argv[n] = (char *)lua_tostring(L, -1);
+        if(argv[n] == NULL) {
+            luaL_error(L, "Argument %d is not a string", n);
+        }
     }
-    lua_pop(L, 1); /* pop the 'arg' table */
 
     /* Create and Initialize the OpenDAX library state object */
     ds = dax_init(modulename);
     if(ds == NULL) {
         luaL_error(L, "Unable to allocate memory for dax_state object");
     }
-    _set_state(L, ds);
 
     /* If we have been given a second argument which is a table to configuration
      * attributes that we want to set */
-    if(lua_gettop(L) > 1) {
-        if(! lua_istable(L, 2)) {
-            luaL_error(L, "Second argument should be a table");
-        }
+    if(lua_istable(L, 2)) {
         lua_pushnil(L);  /* first key */
         while (lua_next(L, 2) != 0) {
             /* copy the key so that we don't mess it up */
             lua_pushvalue(L, -2);
             key = (char *)lua_tostring(L, -1);
             value = (char *)lua_tostring(L, -2);
-            dax_set_attr(ds, key, value);
+            if(key != NULL && value != NULL) {
+                dax_set_attr(ds, key, value);
+            }
             /* removes 'value' and our key copy; keeps original 'key' for next iteration */
             lua_pop(L, 2);
         }
     }
 
     /* Execute the configuration */
-    dax_configure(ds, argc, argv, CFG_CMDLINE);
+    dax_configure(ds, len + 1, argv, CFG_CMDLINE);
 
     /* Free the configuration data */
     dax_free_config (ds);
-    for(n=0;n<=len;n++) {
-        free(argv[n]);
-    }
-    free(argv);
     /* Check for OpenDAX and register the module */
-    if( dax_connect(ds) ) {
+    result = dax_connect(ds);
+    if(result) {
+        dax_free(ds);
         luaL_error(L, "Unable to find OpenDAX Server");
     }
+    _set_state(L, ds);
 
     return 0;
 }
@@ -597,9 +691,12 @@ static int
 _dax_free(lua_State *L)
 {
     dax_state *ds = _get_state(L);
-    if( dax_disconnect(ds) ) {
-        luaL_error(L, "Problem Unregistering from the server");
-    }
+
+    if(ds == NULL) return 0;
+    /* Nobody should find it from here on */
+    _set_state(L, NULL);
+    if(ds == default_ds) default_ds = NULL;
+    dax_disconnect(ds); /* Might be disconnected already */
     dax_free(ds);
     return 0;
 }
@@ -614,46 +711,54 @@ _dax_free(lua_State *L)
 static int
 _cdt_create(lua_State *L)
 {
-    dax_state *ds = _get_state(L);
-    int count, n = 1, result;
+    dax_state *ds = _need_state(L);
+    int n, len, result;
     dax_cdt *cdt;
     tag_type type;
+    lua_Integer count;
     char *name, *typename, *cdt_name;
 
-    if(ds == NULL) {
-        luaL_error(L, "OpenDAX is not initialized");
-    }
     if(lua_gettop(L) != 2) {
         luaL_error(L, "Wrong number of arguments to cdt_create()");
     }
-    cdt_name = (char *)lua_tostring(L, 1);
-    cdt = dax_cdt_new(cdt_name, NULL);
+    cdt_name = (char *)luaL_checkstring(L, 1);
+    luaL_checktype(L, 2, LUA_TTABLE);
 
-    if(cdt == 0) {
-        luaL_error(L, "Unable to create datatype %s", lua_tostring(L, 1));
+    /* Make sure that they are all good before we start */
+    len = lua_rawlen(L, 2);
+    for(n = 1; n <= len; n++) {
+        if(lua_rawgeti(L, 2, n) == LUA_TTABLE) {
+            lua_rawgeti(L, 3, 1);
+            lua_rawgeti(L, 3, 2);
+            lua_rawgeti(L, 3, 3);
+        }
+        count = lua_tointeger(L, 6);
+        if(lua_type(L, 4) != LUA_TSTRING || lua_type(L, 5) != LUA_TSTRING || count <= 0 || count > INT_MAX) {
+            luaL_error(L, "Member %d of the datatype should be a name, a type and a count", n);
+        }
+        lua_settop(L, 2);
     }
 
-    if(! lua_istable(L, 2) ) {
-        luaL_error(L, "Should pass a table to tag_handle_test()");
+    cdt = dax_cdt_new(cdt_name, NULL);
+    if(cdt == NULL) {
+        luaL_error(L, "Unable to create datatype %s", cdt_name);
     }
-
-    while(1) {
+    for(n = 1; n <= len; n++) {
         /* Get the table from the argument */
-        lua_rawgeti(L, 2, n++);
-        if(lua_isnil(L, -1)) break;
+        lua_rawgeti(L, 2, n);
         lua_rawgeti(L, 3, 1);
         name = (char *)lua_tostring(L, -1);
         lua_rawgeti(L, 3, 2);
         typename = (char *)lua_tostring(L, -1);
         lua_rawgeti(L, 3, 3);
         count = lua_tointeger(L, -1);
-        lua_pop(L, 4);
 
         result = dax_cdt_member(ds, cdt, name, dax_string_to_type(ds, typename), count);
         if(result) {
             dax_cdt_free(cdt);
             luaL_error(L, "Unable to add member %s", name);
         }
+        lua_settop(L, 2);
     }
     result = dax_cdt_create(ds, cdt, &type);
     if(result) {
@@ -677,61 +782,58 @@ _cdt_create(lua_State *L)
 static int
 _tag_add(lua_State *L)
 {
-    dax_state *ds = _get_state(L);
+    dax_state *ds = _need_state(L);
     int result, count;
     uint32_t attr = 0;
     tag_type type;
     tag_handle *h;
+    char *name;
 
-    if(ds == NULL) {
-        luaL_error(L, "OpenDAX is not initialized");
-    }
     if(lua_gettop(L) < 2 || lua_gettop(L) > 4) {
         luaL_error(L, "wrong number of arguments to tag_add()");
     }
-    if(lua_gettop(L) == 2) { /* Count is missing */
-        count = 1;
-    } else {
-        count = lua_tointeger(L, 3);
-    }
-    if(lua_gettop(L) == 4) { /* Attributes included */
-        attr = lua_tointeger(L, 4);
-    }
+    name = (char *)luaL_checkstring(L, 1);
+    count = _get_count(L, 3, 1);
+    attr = luaL_optinteger(L, 4, 0);
     if(lua_isnumber(L, 2)) {
         type = lua_tointeger(L, 2);
     } else {
-        type = dax_string_to_type(ds, (char *)lua_tostring(L, 2));
+        type = dax_string_to_type(ds, (char *)luaL_checkstring(L, 2));
         if(type == 0) {
-            luaL_error(L, "Can't get type '%s'", (char *)lua_tostring(L, 2));
+            luaL_error(L, "Can't get type '%s'", lua_tostring(L, 2));
         }
     }
-    h = (tag_handle *)lua_newuserdata(L, sizeof(tag_handle));
-    luaL_getmetatable(L, "OpenDAX.handle");
-    lua_setmetatable(L, -2);
-    result = dax_tag_add(ds, h, (char *)lua_tostring(L,1), type, count, attr);
-    if(result) luaL_error(L, "Unable to add tag '%s'", (char *)lua_tostring(L,1));
+    h = _new_handle(L);
+    result = dax_tag_add(ds, h, name, type, count, attr);
+    if(result) luaL_error(L, "Unable to add tag '%s'", name);
     return 1;
 }
 
-/* Wrapper for the two tag retrieving functions */
-static int
-_tag_get(lua_State *L)
+/* The argument can either be the index or the name of a tag.  Raises an
+ * error if there is no such tag */
+static void
+_get_tag(lua_State *L, dax_state *ds, int arg, dax_tag *tag)
 {
-    dax_state *ds = _get_state(L);
     int result;
-    dax_tag tag;
 
-    if(ds == NULL) {
-        luaL_error(L, "OpeOnDAX is not initialized");
-    }
-    if(lua_isnumber(L, 1)) {
-        result = dax_tag_byindex(ds, &tag, (tag_index)lua_tointeger(L, 1));
+    if(lua_isnumber(L, arg)) {
+        result = dax_tag_byindex(ds, tag, (tag_index)lua_tointeger(L, arg));
     } else {
-        result = dax_tag_byname(ds, &tag, (char *)lua_tostring(L, 1));
+        result = dax_tag_byname(ds, tag, (char *)luaL_checkstring(L, arg));
     }
     if(result != 0) {
-        luaL_error(L, "Can't get tag '%s'", (char *)lua_tostring(L, 2));
+        luaL_error(L, "Can't get tag '%s'", lua_tostring(L, arg));
     }
+}
+
+/* Wrapper for the two tag retrieving functions */
+static int
+_tag_get(lua_State *L)
+{
+    dax_state *ds = _need_state(L);
+    dax_tag tag;
+
+    _get_tag(L, ds, 1, &tag);
     lua_pushstring(L, tag.name);
     lua_pushstring(L, dax_type_to_string(ds, tag.type));
     lua_pushinteger(L, tag.count);
@@ -742,26 +844,15 @@ _tag_get(lua_State *L)
 static int
 _tag_handle(lua_State *L)
 {
-    dax_state *ds = _get_state(L);
+    dax_state *ds = _need_state(L);
     char *name;
     int count;
     int result;
     tag_handle *h;
 
-    if(ds == NULL) {
-        luaL_error(L, "OpeOnDAX is not initialized");
-    }
-    if(lua_gettop(L) == 1) { /* Count is missing */
-        count = 1;
-    } else {
-        count = lua_tointeger(L, 2);
-    }
-    name = (char *)lua_tostring(L, 1);
-
-    h = (tag_handle *)lua_newuserdata(L, sizeof(tag_handle));
-    luaL_getmetatable(L, "OpenDAX.handle");
-    lua_setmetatable(L, -2);
-
+    name = (char *)luaL_checkstring(L, 1);
+    count = _get_count(L, 2, 1);
+    h = _new_handle(L);
     result = dax_tag_handle(ds, h, name, count);
     if(result) {
         luaL_error(L, "dax_tag_handle() returned %d", result);
@@ -775,99 +866,69 @@ _tag_handle(lua_State *L)
  * the dax_read/write/mask function. */
 static int
 _tag_read(lua_State *L) {
-    dax_state *ds = _get_state(L);
-    char *name;
-    int count, result;
+    dax_state *ds = _need_state(L);
+    int result;
     tag_handle h;
     tag_handle *hp;
     void *data;
 
-    if(ds == NULL) {
-        luaL_error(L, "OpenDAX is not initialized");
-    }
     if(lua_gettop(L) < 1 || lua_gettop(L) > 2) {
         luaL_error(L, "Wrong number of arguments passed to tag_read()");
     }
-    if(lua_gettop(L) == 1) { /* Assume that it's only the name and we just one one */
-        count = 1;
-    }
-    count = lua_tointeger(L, 2);
-    if(lua_isuserdata(L, 1)) {
-        hp = luaL_checkudata(L, 1, "OpenDAX.handle");
-    } else {
-        name = (char *)lua_tostring(L, 1);
-
-        result = dax_tag_handle(ds, &h, name, count);
-        if(result) {
-            luaL_error(L, "dax_tag_handle() returned %d", result);
-        }
-        hp=&h;
-    }
-
-    data = malloc(hp->size);
-    if(data == NULL) {
-        luaL_error(L, "tag_read() unable to allocate data area");
-    }
+    hp = _get_handle(L, ds, 1, _get_count(L, 2, 0), &h);
+    data = _new_buffer(L, hp->size);
 
     result = dax_read_tag(ds, *hp, data);
-
     if(result) {
-        free(data);
         luaL_error(L, "dax_read_tag() returned %d", result);
     }
     /* This function figures all the tag data out and pushes the right
      * thing onto the top of the Lua stack */
     daxlua_dax_to_lua(L, *hp, data);
+    return 1;
+}
+
+/* Converts the second argument to the data and the mask for the tag.  Raises
+ * an error if that can't be done */
+static void
+_get_data(lua_State *L, tag_handle *hp, void **data, void **mask)
+{
+    *data = _new_buffer(L, hp->size);
+    *mask = _new_buffer(L, hp->size);
+    lua_pushvalue(L, 2);
+    if(daxlua_lua_to_dax(L, *hp, *data, *mask)) {
+        lua_error(L); /* The error message should already be on top of the stack */
+    }
+    lua_pop(L, 1);
+}
+
+/* Whether the mask covers everything that the handle represents */
+static int
+_is_complete(tag_handle *hp, uint8_t *mask)
+{
+    int64_t n, bits;
 
-    free(data);
+    bits = hp->type == DAX_BOOL ? (int64_t)hp->count : (int64_t)hp->size * 8;
+    for(n = 0; n < bits; n++) {
+        if(! (mask[n / 8] & (1 << (n % 8)))) return 0;
+    }
     return 1;
 }
 
 static int
 _tag_write(lua_State *L) {
-    dax_state *ds = _get_state(L);
-    char *name;
+    dax_state *ds = _need_state(L);
     char q = 0;
     int result, n;
     tag_handle h;
     tag_handle *hp;
     void *data, *mask;
 
-    if(ds == NULL) {
-        luaL_error(L, "OpenDAX is not initialized");
-    }
     if(lua_gettop(L) != 2) {
         luaL_error(L, "Wrong number of arguments passed to tag_write()");
     }
-    if(lua_isuserdata(L, 1)) {
-        hp = luaL_checkudata(L, 1, "OpenDAX.handle");
-    } else {
-        name = (char *)lua_tostring(L, 1);
-        result = dax_tag_handle(ds, &h, name, 0);
-        if(result) {
-            luaL_error(L, "dax_tag_handle() returned %d", result);
-        }
-        hp = &h;
-    }
-
-    data = malloc(hp->size);
-    if(data == NULL) {
-        luaL_error(L, "tag_write() unable to allocate data area");
-    }
-
-    mask = malloc(hp->size);
-    if(mask == NULL) {
-        free(data);
-        luaL_error(L, "tag_write() unable to allocate mask memory");
-    }
-    bzero(mask, hp->size);
-
-    result = daxlua_lua_to_dax(L, *hp, data, mask);
-    if(result) {
-        free(data);
-        free(mask);
-        lua_error(L); /* The error message should already be on top of the stack */
-    }
+    hp = _get_handle(L, ds, 1, 0, &h);
+    _get_data(L, hp, &data, &mask);
 
     /* This checks the mask to determine which function to use
      * to write the data to the server */
@@ -885,40 +946,25 @@ _tag_write(lua_State *L) {
     }
 
     if(result) {
-        free(data);
-        free(mask);
         luaL_error(L, "dax_write/mask_tag() returned %d", result);
     }
-
-    free(data);
-    free(mask);
     return 0;
 }
 
 
 static int
 _tag_del(lua_State *L) {
-    dax_state *ds = _get_state(L);
+    dax_state *ds = _need_state(L);
     int result;
     dax_tag tag;
 
-    if(ds == NULL) {
-        luaL_error(L, "OpenDAX is not initialized");
-    }
     if(lua_gettop(L) != 1) {
         luaL_error(L, "Wrong number of arguments passed to tag_del()");
     }
-    if(lua_isnumber(L, 1)) {
-        result = dax_tag_byindex(ds, &tag, (tag_index)lua_tointeger(L, 1));
-    } else {
-        result = dax_tag_byname(ds, &tag, (char *)lua_tostring(L, 1));
-    }
-
+    _get_tag(L, ds, 1, &tag);
     result = dax_tag_del(ds, tag.idx);
     if(result) {
         luaL_error(L, "Unable to delete tag");
-    } else {
-        return 0;
     }
     return 0;
 }
@@ -933,16 +979,41 @@ typedef struct event_ref_data {
     int data;
 } event_ref_data;
 
+/* The interpreter that is waiting for events and how it went */
+static __thread lua_State *event_L;
+static __thread int event_error;
+
 /* This function should be passed a pointer to the event_ref_data structure
  * that represents the lua_State, the Lua function and the argument that we
- * want to pass to the Lua function and then calls the Lua function */
+ * want to pass to the Lua function and then calls the Lua function.  An error
+ * in the function can't be allowed to leave through the functions of libdax so
+ * it's left on the stack for the function that is waiting for the event */
 static void
 _event_callback(dax_state *d, void *data) {
     event_ref_data *rdata;
+    lua_State *L;
+
     rdata = (event_ref_data *)data;
-    lua_rawgeti(rdata->L, LUA_REGISTRYINDEX, rdata->function);
-    lua_rawgeti(rdata->L, LUA_REGISTRYINDEX, rdata->data);
-    lua_call(rdata->L, 1, 0);
+    L = event_L != NULL ? event_L : rdata->L;
+    if(! lua_checkstack(L, 10)) return;
+    /* It has to be the interpreter that the function is from */
+    if(lua_topointer(L, LUA_REGISTRYINDEX) != lua_topointer(rdata->L, LUA_REGISTRYINDEX)) {
+        L = rdata->L;
+    }
+    lua_rawgeti(L, LUA_REGISTRYINDEX, rdata->function);
+    if(! lua_isfunction(L, -1)) { /* There doesn't have to be one */
+        lua_pop(L, 1);
+        return;
+    }
+    lua_rawgeti(L, LUA_REGISTRYINDEX, rdata->data);
+    if(lua_pcall(L, 1, 0, 0) != LUA_OK) {
+        if(L == event_L) {
+            event_error = 1;
+        } else {
+            dax_log(DAX_LOG_ERROR, "Error in event function - %s", lua_tostring(L, -1));
+            lua_pop(L, 1);
+        }
+    }
 }
 
 /* Takes a string as an argument and returns the event type that the
@@ -965,73 +1036,13 @@ _get_event_type(char *str) {
         return EVENT_GREATER;
     } else if(strcasecmp(str, "LESS") == 0) {
         return EVENT_LESS;
+    } else if(strcasecmp(str, "DELETED") == 0) {
+        return EVENT_DELETED;
     } else {
         return ERR_ARG;
     }
 }
 
-/* Converts the lua_Number that we would get off of the Lua stack into
- * the proper datatype for DAX.  The pointer that is returned in **data
- * will wind up pointing to a static member within this function.  This
- * is not a general use function for this reason and it is not re-entrant
- * or thread safe. */
-static inline void
-_convert_lua_number(tag_type datatype, void **data, lua_Number x) {
-    static dax_type_union u1;
-
-    switch(datatype) {
-        case DAX_BYTE:
-            u1.dax_byte = (dax_byte)x;
-            *data = &u1.dax_byte;
-            return;
-        case DAX_SINT:
-        case DAX_CHAR:
-            u1.dax_sint = (dax_sint)x;
-            *data = &u1.dax_sint;
-            return;
-        case DAX_UINT:
-        case DAX_WORD:
-            u1.dax_uint = (dax_uint)x;
-            *data = &u1.dax_uint;
-            return;
-        case DAX_INT:
-            u1.dax_int = (dax_int)x;
-            *data = &u1.dax_int;
-            return;
-        case DAX_UDINT:
-        case DAX_DWORD:
-        case DAX_TIME:
-            u1.dax_udint = (dax_udint)x;
-            *data = &u1.dax_udint;
-            return;
-        case DAX_DINT:
-            u1.dax_dint = (dax_dint)x;
-            *data = &u1.dax_dint;
-            return;
-        case DAX_ULINT:
-        case DAX_LWORD:
-            u1.dax_ulint = (dax_ulint)x;
-            *data = &u1.dax_ulint;
-            return;
-        case DAX_LINT:
-            u1.dax_lint = (dax_lint)x;
-            *data = &u1.dax_lint;
-            return;
-        case DAX_REAL:
-            u1.dax_real = (dax_real)x;
-            *data = &u1.dax_real;
-            return;
-        case DAX_LREAL:
-            u1.dax_lreal = (dax_lreal)x;
-            *data = &u1.dax_lreal;
-            return;
-        default:
-            *data = NULL;
-            break;
-    }
-    return;
-}
-
 /* Used to add an event to the server's event list.  The arguments are...
  * 1 - string - tagname
  * 2 - number - count
@@ -1043,62 +1054,66 @@ _convert_lua_number(tag_type datatype, void **data, lua_Number x) {
  * Lua script should probably not mess with the members of this table. */
 static int
 _event_add(lua_State *L) {
-    dax_state *ds = _get_state(L);
-    char *str;
-    int count, type, result;
-    lua_Number number;
+    dax_state *ds = _need_state(L);
+    const char *str;
+    int type, result;
     tag_handle h;
     event_ref_data *edata;
     dax_id id;
-    void *data;
+    dax_type_union u, mask;
+    void *data = NULL;
 
     if(lua_gettop(L) != 6) {
         luaL_error(L, "Wrong number of arguments passed to event_add()");
     }
-    if(lua_isnil(L, 5) || lua_tonumber(L, 5) == 0) {
-
-    } else {
-        if(!lua_isfunction(L, 5)) {
-            luaL_error(L, "Argument 5 to event_add() should be a function");
-        }
-    }
-    edata = malloc(sizeof(event_ref_data));
-    if(edata == NULL) {
-        luaL_error(L, "Unable to allocate memory");
+    /* nil or zero are okay if there is no function */
+    if(! lua_isnil(L, 5) && ! lua_isfunction(L, 5) &&
+       ! (lua_type(L, 5) == LUA_TNUMBER && lua_tonumber(L, 5) == 0)) {
+        luaL_error(L, "Argument 5 to event_add() should be a function");
     }
     /* Get tagname and count, then determine the handle */
-    str = (char *)lua_tostring(L, 1);
-    count = lua_tonumber(L, 2);
-    result = dax_tag_handle(ds, &h, str, count);
+    str = luaL_checkstring(L, 1);
+    result = dax_tag_handle(ds, &h, (char *)str, _get_count(L, 2, 0));
     if(result) {
-        free(edata);
-        luaL_error(L, "%s with count %d is not a valid tag", str, count);
+        luaL_error(L, "%s with count %d is not a valid tag", str, (int)lua_tointeger(L, 2));
     }
     /* Get the event type and any number */
-    str = (char *)lua_tostring(L, 3);
-    type = _get_event_type(str);
+    str = luaL_checkstring(L, 3);
+    type = _get_event_type((char *)str);
     if(type < 0) {
-        free(edata);
         luaL_error(L, "%s is not a valid event type", str);
     }
     /* Get the data that we need for < > = and deadband events. */
-    number = lua_tonumber(L, 4);
-    _convert_lua_number(h.type, &data, number);
+    if(h.type != DAX_BOOL && ! IS_CUSTOM(h.type)) {
+        bzero(&u, sizeof(u));
+        lua_pushvalue(L, 4);
+        result = _write_from_stack(L, h.type, &u, &mask, 0);
+        lua_pop(L, 1);
+        if(result && (type == EVENT_EQUAL || type == EVENT_GREATER || type == EVENT_LESS || type == EVENT_DEADBAND)) {
+            luaL_error(L, "Argument 4 to event_add() should be a number");
+        }
+        data = &u;
+    }
+    edata = malloc(sizeof(event_ref_data));
+    if(edata == NULL) {
+        luaL_error(L, "Unable to allocate memory");
+    }
     /* The data that was passed is actually at the top of the stack */
     edata->data = luaL_ref(L, LUA_REGISTRYINDEX); /* Also pops the value */
     /* Now the function should be at the top of the stack */
     edata->function = luaL_ref(L, LUA_REGISTRYINDEX);
-    edata->L = L; /* We'll need this later */
-    result = dax_event_add(ds, &h, type, data, &id, _event_callback, edata, NULL);
+    /* We'll need this later.  We might be in a coroutine that will be gone by then */
+    lua_rawgeti(L, LUA_REGISTRYINDEX, LUA_RIDX_MAINTHREAD);
+    edata->L = lua_tothread(L, -1);
+    lua_pop(L, 1);
+    result = dax_event_add(ds, &h, type, data, &id, _event_callback, edata, free);
     if(result) {
+        luaL_unref(L, LUA_REGISTRYINDEX, edata->data);
+        luaL_unref(L, LUA_REGISTRYINDEX, edata->function);
         free(edata);
         luaL_error(L, "Unable to add event to server - result = %d", result);
     }
-    lua_createtable(L, 2, 0);
-    lua_pushinteger(L, id.index);
-    lua_rawseti(L, -2, 1);
-    lua_pushinteger(L, id.id);
-    lua_rawseti(L, -2, 2);
+    _push_id(L, id);
     return 1;
 }
 
@@ -1107,45 +1122,57 @@ _event_add(lua_State *L) {
  * nothing */
 static int
 _event_del(lua_State *L) {
-    dax_state *ds = _get_state(L);
-    dax_id id;
+    dax_state *ds = _need_state(L);
+    int result;
 
-    if(!lua_istable(L, 1)) {
-        luaL_error(L, "Wrong type of argument passed to event_del()");
+    result = dax_event_del(ds, _get_id(L, 1));
+    if(result) {
+        luaL_error(L, "Unable to delete event - result = %d", result);
     }
-    lua_rawgeti(L, 1, 1); /* Get the index from the table */
-    id.index = lua_tointeger(L, -1);
-    lua_rawgeti(L, 1, 2); /* Get the id from the table */
-    id.id = lua_tointeger(L, -1);
-
-    dax_event_del(ds, id);
     return 0;
 }
 
+/* Waits or polls for an event and returns the result.  Raises the error that
+ * the function for the event might have raised */
+static int
+_get_event(lua_State *L, dax_state *ds, int poll, int timeout)
+{
+    lua_State *last_L = event_L; /* The functions can also wait for events */
+    int result, error;
+
+    event_L = L;
+    event_error = 0;
+    result = poll ? dax_event_poll(ds, NULL) : dax_event_wait(ds, timeout, NULL);
+    error = event_error;
+    event_L = last_L;
+    event_error = 0;
+    if(error) lua_error(L); /* It is at the top of the stack */
+    return result;
+}
+
 /* Wrapper for dax_event_wait().  It takes a single argument that is
  * the timeout in milliseconds.  It returns 0 on timeout and 1 if
  * it dispatches an event */
 static int
 _event_wait(lua_State *L) {
-    dax_state *ds = _get_state(L);
+    dax_state *ds = _need_state(L);
     int result;
-    int timeout;
+    lua_Number timeout;
 
-    if(lua_gettop(L) == 0) {
-        timeout = 0;
-    } else if (lua_gettop(L) ==1) {
-        timeout = lua_tonumber(L, 1);
-    } else {
-        luaL_error(L, "Wrong number of arguments passed to event_select()");
+    if(lua_gettop(L) > 1) {
+        luaL_error(L, "Wrong number of arguments passed to event_wait()");
     }
-    result = dax_event_wait(ds, timeout, NULL);
+    timeout = luaL_optnumber(L, 1, 0);
+    luaL_argcheck(L, timeout >= 0 && timeout <= INT_MAX, 1, "timeout out of range");
+    /* A timeout of less than one would be forever */
+    result = _get_event(L, ds, 0, timeout > 0 && timeout < 1 ? 1 : (int)timeout);
 
     if(result == ERR_TIMEOUT) {
         lua_pushnumber(L, 0);
     } else if (result == 0) {
         lua_pushnumber(L, 1);
     } else {
-        luaL_error(L, "Problem with dax_event_select() call");
+        luaL_error(L, "Problem with dax_event_wait() returned %d", result);
     }
     return 1;
 }
@@ -1154,10 +1181,10 @@ _event_wait(lua_State *L) {
  * no events and 1 if it dispatches an event */
 static int
 _event_poll(lua_State *L) {
-    dax_state *ds = _get_state(L);
+    dax_state *ds = _need_state(L);
     int result;
 
-    result = dax_event_poll(ds, NULL);
+    result = _get_event(L, ds, 1, 0);
 
     if(result == ERR_NOTFOUND) {
         lua_pushnumber(L, 0);
@@ -1169,54 +1196,28 @@ _event_poll(lua_State *L) {
     return 1;
 }
 
-/* Wrapper for dax_event_poll() no argument  It returns 0 on if there are
- * no events and 1 if it dispatches an event */
+/* Wrapper for dax_atomic_op().  The arguments are the tag, the value and the
+ * operation.  The value can be nil for the operations that don't need it */
 static int
 _atomic_op(lua_State *L) {
-    dax_state *ds = _get_state(L);
+    dax_state *ds = _need_state(L);
     int result;
-    char *name;
     tag_handle *hp;
     tag_handle h;
-    void *data, *mask;
-    uint16_t operation;
+    void *data = NULL, *mask;
+    lua_Integer operation;
 
-    if(ds == NULL) {
-        luaL_error(L, "OpenDAX is not initialized");
-    }
-    if(lua_gettop(L) < 1 || lua_gettop(L) > 3) {
+    if(lua_gettop(L) != 3) {
         luaL_error(L, "Wrong number of arguments passed to atomic_op()");
     }
-    if(lua_isuserdata(L, 1)) {
-        hp = luaL_checkudata(L, 1, "OpenDAX.handle");
-    } else {
-        name = (char *)lua_tostring(L, 1);
-
-        result = dax_tag_handle(ds, &h, name, 0);
-        if(result) {
-            luaL_error(L, "dax_tag_handle() returned %d", result);
+    operation = luaL_checkinteger(L, 3);
+    luaL_argcheck(L, operation >= 0 && operation <= UINT16_MAX, 3, "no such operation");
+    hp = _get_handle(L, ds, 1, 0, &h);
+    if(! (lua_isnil(L, 2) && operation == ATOMIC_OP_NOT)) {
+        _get_data(L, hp, &data, &mask);
+        if(! _is_complete(hp, mask)) {
+            luaL_error(L, "atomic_op() needs a value for all of the tag");
         }
-        hp=&h;
-    }
-    data = malloc(hp->size);
-    if(data == NULL) {
-        luaL_error(L, "atomic_op() unable to allocate data area");
-    }
-
-    mask = malloc(hp->size);
-    if(mask == NULL) {
-        free(data);
-        luaL_error(L, "atomic_op() unable to allocate mask memory");
-    }
-    bzero(mask, hp->size);
-    operation = lua_tointeger(L, 3);
-    lua_pop(L, 1);
-
-    result = daxlua_lua_to_dax(L, *hp, data, mask);
-    if(result) {
-        free(data);
-        free(mask);
-        lua_error(L); /* The error message should already be on top of the stack */
     }
     result = dax_atomic_op(ds, *hp, data, operation);
     if(result) {
@@ -1228,80 +1229,38 @@ _atomic_op(lua_State *L) {
 
 static int
 _map_add(lua_State *L) {
-    dax_state *ds = _get_state(L);
+    dax_state *ds = _need_state(L);
     int result;
-    char *name;
     tag_handle *hp1, *hp2;
     tag_handle h1, h2;
     dax_id id;
 
-    if(ds == NULL) {
-        luaL_error(L, "OpenDAX is not initialized");
-    }
-    if(lua_gettop(L) < 1 || lua_gettop(L) > 3) {
+    if(lua_gettop(L) != 2) {
         luaL_error(L, "Wrong number of arguments passed to map_add()");
     }
-    if(lua_isuserdata(L, 1)) {
-        hp1 = luaL_checkudata(L, 1, "OpenDAX.handle");
-    } else {
-        name = (char *)lua_tostring(L, 1);
-
-        result = dax_tag_handle(ds, &h1, name, 0);
-        if(result) {
-            luaL_error(L, "dax_tag_handle() returned %d", result);
-        }
-        hp1=&h1;
-    }
-    if(lua_isuserdata(L, 2)) {
-        hp2 = luaL_checkudata(L, 2, "OpenDAX.handle");
-    } else {
-        name = (char *)lua_tostring(L, 2);
-
-        result = dax_tag_handle(ds, &h2, name, 0);
-        if(result) {
-            luaL_error(L, "dax_tag_handle() returned %d", result);
-        }
-        hp2=&h2;
-    }
+    hp1 = _get_handle(L, ds, 1, 0, &h1);
+    hp2 = _get_handle(L, ds, 2, 0, &h2);
     result = dax_map_add(ds, hp1, hp2, &id);
     if(result) {
         luaL_error(L, "dax_map_add() returned %d", result);
     }
-    lua_createtable(L, 2, 0);
-    lua_pushinteger(L, id.index);
-    lua_rawseti(L, -2, 1);
-    lua_pushinteger(L, id.id);
-    lua_rawseti(L, -2, 2);
+    _push_id(L, id);
     return 1;
 }
 
 static int
 _map_get(lua_State *L) {
-    dax_state *ds = _get_state(L);
+    dax_state *ds = _need_state(L);
     dax_id id;
     tag_handle *src, *dest;
     int result;
 
-    if(ds == NULL) {
-        luaL_error(L, "OpenDAX is not initialized");
-    }
     if(lua_gettop(L) != 1 ) {
         luaL_error(L, "Wrong number of arguments passed to map_get()");
     }
-    if(!lua_istable(L,1)) {
-        luaL_error(L, "Table required as argument to map_get()");
-    }
-    lua_rawgeti(L, 1, 1);
-    id.index = lua_tointeger(L, -1);
-    lua_rawgeti(L, 1, 2);
-    id.id = lua_tointeger(L, -1);
-
-    src = (tag_handle *)lua_newuserdata(L, sizeof(tag_handle));
-    luaL_getmetatable(L, "OpenDAX.handle");
-    lua_setmetatable(L, -2);
-    dest = (tag_handle *)lua_newuserdata(L, sizeof(tag_handle));
-    luaL_getmetatable(L, "OpenDAX.handle");
-    lua_setmetatable(L, -2);
+    id = _get_id(L, 1);
+    src = _new_handle(L);
+    dest = _new_handle(L);
 
     result = dax_map_get(ds, src, dest, id);
     if(result == ERR_NOTFOUND) {
@@ -1319,24 +1278,13 @@ _map_get(lua_State *L) {
 
 static int
 _map_del(lua_State *L) {
-    dax_state *ds = _get_state(L);
-    dax_id id;
+    dax_state *ds = _need_state(L);
     int result;
 
-    if(ds == NULL) {
-        luaL_error(L, "OpenDAX is not initialized");
-    }
     if(lua_gettop(L) != 1 ) {
         luaL_error(L, "Wrong number of arguments passed to map_del()");
     }
-    if(!lua_istable(L,1)) {
-        luaL_error(L, "Table required as argument to map_del()");
-    }
-    lua_rawgeti(L, 1, 1);
-    id.index = lua_tointeger(L, -1);
-    lua_rawgeti(L, 1, 2);
-    id.id = lua_tointeger(L, -1);
-    result = dax_map_del(ds, id);
+    result = dax_map_del(ds, _get_id(L, 1));
     if(result) {
         luaL_error(L, "dax_map_del() returned %d", result);
     }
@@ -1346,188 +1294,101 @@ _map_del(lua_State *L) {
 
 static int
 _override_add(lua_State *L) {
-    dax_state *ds = _get_state(L);
+    dax_state *ds = _need_state(L);
     void *data, *mask;
-    char *name;
-    int result;
+    uint8_t *current;
+    int result, n;
     tag_handle h;
     tag_handle *hp;
 
-    if(ds == NULL) {
-        luaL_error(L, "OpenDAX is not initialized");
-    }
     if(lua_gettop(L) != 2 ) {
         luaL_error(L, "Wrong number of arguments passed to override_add()");
     }
-
-    if(lua_isuserdata(L, 1)) {
-        hp = luaL_checkudata(L, 1, "OpenDAX.handle");
-    } else {
-        name = (char *)lua_tostring(L, 1);
-        result = dax_tag_handle(ds, &h, name, 0);
+    hp = _get_handle(L, ds, 1, 0, &h);
+    _get_data(L, hp, &data, &mask);
+    if(! _is_complete(hp, mask)) { /* The rest stays what it is */
+        current = _new_buffer(L, hp->size);
+        result = dax_read_tag(ds, *hp, current);
         if(result) {
-            luaL_error(L, "dax_tag_handle() returned %d", result);
+            luaL_error(L, "dax_read_tag() returned %d", result);
+        }
+        for(n = 0; n < hp->size; n++) {
+            ((uint8_t *)data)[n] = (((uint8_t *)data)[n] & ((uint8_t *)mask)[n]) | (current[n] & ~((uint8_t *)mask)[n]);
         }
-        hp = &h;
-    }
-
-    data = malloc(hp->size);
-    if(data == NULL) {
-        luaL_error(L, "dax_tag_add_override() unable to allocate data area");
-    }
-
-    mask = malloc(hp->size);
-    if(mask == NULL) {
-        free(data);
-        luaL_error(L, "dax_tag_add_override() unable to allocate mask memory");
-    }
-    bzero(mask, hp->size);
-
-    result = daxlua_lua_to_dax(L, *hp, data, mask);
-    if(result) {
-        free(data);
-        free(mask);
-        lua_error(L); /* The error message should already be on top of the stack */
     }
-
     result = dax_tag_add_override(ds, *hp, data);
-
     if(result) {
-        free(data);
-        free(mask);
         luaL_error(L, "override_add() returned %d", result);
     }
-
-    free(data);
-    free(mask);
     return 0;
 }
 
 static int
 _override_set(lua_State *L) {
-    dax_state *ds = _get_state(L);
-    char *name;
+    dax_state *ds = _need_state(L);
     int result;
     tag_handle h;
-    tag_handle *hp;
 
-    if(ds == NULL) {
-        luaL_error(L, "OpenDAX is not initialized");
-    }
     if(lua_gettop(L) != 1 ) {
         luaL_error(L, "Wrong number of arguments passed to override_set()");
     }
-
-    if(lua_isuserdata(L, 1)) {
-        hp = luaL_checkudata(L, 1, "OpenDAX.handle");
-    } else {
-        name = (char *)lua_tostring(L, 1);
-        result = dax_tag_handle(ds, &h, name, 0);
-        if(result) {
-            luaL_error(L, "dax_tag_handle() returned %d", result);
-        }
-        hp = &h;
-    }
-
-    result = dax_tag_set_override(ds, *hp);
-
+    result = dax_tag_set_override(ds, *_get_handle(L, ds, 1, 0, &h));
     if(result) {
         luaL_error(L, "override_set() returned %d", result);
     }
-
     return 0;
 }
 
 static int
 _override_del(lua_State *L) {
-    dax_state *ds = _get_state(L);
-    char *name;
+    dax_state *ds = _need_state(L);
     int result;
     tag_handle h;
-    tag_handle *hp;
 
-    if(ds == NULL) {
-        luaL_error(L, "OpenDAX is not initialized");
-    }
     if(lua_gettop(L) != 1 ) {
         luaL_error(L, "Wrong number of arguments passed to override_del()");
     }
-
-    if(lua_isuserdata(L, 1)) {
-        hp = luaL_checkudata(L, 1, "OpenDAX.handle");
-    } else {
-        name = (char *)lua_tostring(L, 1);
-        result = dax_tag_handle(ds, &h, name, 0);
-        if(result) {
-            luaL_error(L, "dax_tag_handle() returned %d", result);
-        }
-        hp = &h;
-    }
-
-    result = dax_tag_del_override(ds, *hp);
-
+    result = dax_tag_del_override(ds, *_get_handle(L, ds, 1, 0, &h));
     if(result) {
         luaL_error(L, "override_del() returned %d", result);
     }
-
     return 0;
 }
 
-
 static int
 _override_clr(lua_State *L) {
-    dax_state *ds = _get_state(L);
-    char *name;
+    dax_state *ds = _need_state(L);
     int result;
     tag_handle h;
-    tag_handle *hp;
 
-    if(ds == NULL) {
-        luaL_error(L, "OpenDAX is not initialized");
-    }
     if(lua_gettop(L) != 1 ) {
         luaL_error(L, "Wrong number of arguments passed to override_clr()");
     }
-
-    if(lua_isuserdata(L, 1)) {
-        hp = luaL_checkudata(L, 1, "OpenDAX.handle");
-    } else {
-        name = (char *)lua_tostring(L, 1);
-        result = dax_tag_handle(ds, &h, name, 0);
-        if(result) {
-            luaL_error(L, "dax_tag_handle() returned %d", result);
-        }
-        hp = &h;
-    }
-
-    result = dax_tag_clr_override(ds, *hp);
-
+    result = dax_tag_clr_override(ds, *_get_handle(L, ds, 1, 0, &h));
     if(result) {
         luaL_error(L, "override_clr() returned %d", result);
     }
-
     return 0;
 }
 
 
-
 /* Lua lacks a sleep command and it's not uncommon to need to delay
  * so this function fills that gap.  The sleep time in mSec should be
  * passed to the function and it returns 0 on success or the mSec
  * remaining if was interrupted by a signal */
 static int
 _sleep(lua_State *L) {
-    unsigned int interval;
+    lua_Number interval;
     int result;
     struct timespec req, rem;
 
     if(lua_gettop(L) != 1) {
         luaL_error(L, "Wrong number of arguments passed to sleep()");
-    } else {
-        interval = lua_tonumber(L, 1);
     }
-    req.tv_sec = interval / 1000;
-    req.tv_nsec = (interval % 1000) * 1000000;
+    interval = luaL_checknumber(L, 1);
+    luaL_argcheck(L, interval >= 0 && interval <= UINT32_MAX, 1, "interval out of range");
+    req.tv_sec = (uint32_t)interval / 1000;
+    req.tv_nsec = ((uint32_t)interval % 1000) * 1000000;
     result = nanosleep(&req, &rem);
     if(result == -1) {
         lua_pushnumber(L, rem.tv_sec * 1000 + rem.tv_nsec / 1000000);
@@ -1551,7 +1412,7 @@ _log(lua_State *L) {
     if(result) {
         str = lua_tostring(L, 2);
         if(str!= NULL) {
-            dax_log(log_topics, str);
+            dax_log(log_topics, "%s", str);
         } else {
             luaL_error(L, "Problem with string passed to log()");
         }
@@ -1712,7 +1573,8 @@ _set_atomic_constants(lua_State *L) {
         ATOMIC_OP_AND,
         ATOMIC_OP_NOR,
         ATOMIC_OP_NAND,
-        ATOMIC_OP_XOR
+        ATOMIC_OP_XOR,
+        ATOMIC_OP_XNOR
     };
     const char *_str[] = {
         "ATOMIC_OP_INC",
@@ -1722,9 +1584,10 @@ _set_atomic_constants(lua_State *L) {
         "ATOMIC_OP_AND",
         "ATOMIC_OP_NOR",
         "ATOMIC_OP_NAND",
-        "ATOMIC_OP_XOR"
+        "ATOMIC_OP_XOR",
+        "ATOMIC_OP_XNOR"
     };
-    for(int n=0;n<8;n++) {
+    for(int n=0;n<9;n++) {
         lua_pushinteger(L, _ints[n]);
         lua_setglobal(L, _str[n]);
     }
@@ -1742,7 +1605,7 @@ _handle_index(lua_State *L) {
     } else {
         luaL_error(L, "How did we get here???");
     }
-    name = lua_tostring(L, 2);
+    name = luaL_checkstring(L, 2);
 
     if(strcmp(name, "index") == 0) {
         lua_pushinteger(L, h->index);
-- 
2.43.0


From f7214576606bc9cc5befe374d1a6a4b2a87454f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:55 +0000
Subject: [PATCH 33/64] fix: Modbus server answers for every request: limits,
 uninitialized result, failed tag access

---
 src/modules/modbus/database.c |   8 +-
 src/modules/modbus/database.h |   4 +-
 src/modules/modbus/mbserver.c |   2 +-
 src/modules/modbus/mbslave.c  |   3 +-
 src/modules/modbus/modbus.c   | 269 ++++++++++++++++++----------------
 src/modules/modbus/modbus.h   |   9 +-
 6 files changed, 157 insertions(+), 138 deletions(-)

diff --git a/src/modules/modbus/database.c b/src/modules/modbus/database.c
index 93f72be..67636b4 100644
--- a/src/modules/modbus/database.c
+++ b/src/modules/modbus/database.c
@@ -22,7 +22,7 @@
 extern dax_state *ds;
 
 
-void
+int
 slave_write_database(tag_index idx, int reg, int offset, int count, uint16_t *data)
 {
     int result;
@@ -70,10 +70,11 @@ slave_write_database(tag_index idx, int reg, int offset, int count, uint16_t *da
     if(result) {
         dax_log(DAX_LOG_ERROR, "Unable to write tag data to server\n");
     }
+    return result;
 }
 
 
-void
+int
 slave_read_database(tag_index idx, int reg, int offset, int count, uint16_t *data) {
     int result;
     tag_handle h;
@@ -117,7 +118,8 @@ slave_read_database(tag_index idx, int reg, int offset, int count, uint16_t *dat
     }
     result = dax_read_tag(ds, h, data);
     if(result) {
-        dax_log(DAX_LOG_ERROR, "Unable to write tag data to server\n");
+        dax_log(DAX_LOG_ERROR, "Unable to read tag data from server\n");
     }
+    return result;
 }
 
diff --git a/src/modules/modbus/database.h b/src/modules/modbus/database.h
index 2734c8a..c47f78f 100644
--- a/src/modules/modbus/database.h
+++ b/src/modules/modbus/database.h
@@ -26,7 +26,7 @@
 #include <modopt.h>
 #include <modbus.h>
 
-void slave_write_database(tag_index idx, int reg, int offset, int count, uint16_t *data);
-void slave_read_database(tag_index idx, int reg, int offset, int count, uint16_t *data);
+int slave_write_database(tag_index idx, int reg, int offset, int count, uint16_t *data);
+int slave_read_database(tag_index idx, int reg, int offset, int count, uint16_t *data);
 
 #endif
diff --git a/src/modules/modbus/mbserver.c b/src/modules/modbus/mbserver.c
index f41af70..51058ad 100644
--- a/src/modules/modbus/mbserver.c
+++ b/src/modules/modbus/mbserver.c
@@ -147,7 +147,7 @@ _mb_read(mb_port *port, int fd)
                 port->in_callback(port, cc->buff, cc->buffindex);
             }
 
-            result = create_response(port, &(cc->buff[6]), MB_BUFF_SIZE - 6);
+            result = create_response(port, &(cc->buff[6]), msgsize, MB_MAX_MSG_SIZE);
             if(result > 0) { /* We have a response */
                 msgsize = result;
                 COPYWORD(&(cc->buff[4]), &msgsize);
diff --git a/src/modules/modbus/mbslave.c b/src/modules/modbus/mbslave.c
index 4af37c1..e5d40e6 100644
--- a/src/modules/modbus/mbslave.c
+++ b/src/modules/modbus/mbslave.c
@@ -82,7 +82,8 @@ _mb_read(mb_port *port, int fd)
         /* Check the checksum here. */
         result = crc16check(buff, buffindex);
         if(result) {
-            result = create_response(port, buff, MB_BUFF_SIZE);
+            /* Leave the checksum off of the request and room for one in the response */
+            result = create_response(port, buff, buffindex - 2, MB_MAX_MSG_SIZE);
             if(result > 0) { /* We have a response */
                 checksum = crc16(buff, result);
                 COPYWORD(&(buff[result]), &checksum);
diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index 27870b6..4fb5774 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -749,81 +749,89 @@ _create_exception(unsigned char *buff, uint16_t exception)
     return 3;
 }
 
+/* Checks the count of a request against the limits of the protocol and the
+ * address range against the size of the register.  Returns zero if the
+ * request is good or the exception code that should be sent */
+static int
+_check_range(uint16_t index, uint16_t count, int max, unsigned int regsize)
+{
+    if(count < 1 || count > max) return ME_BAD_VALUE;
+    if((unsigned int)index + count > regsize) return ME_BAD_ADDRESS;
+    return 0;
+}
+
 /* Handles responses for function codes 1 and 2 */
 static int
 _read_bits_response(mb_port *port, int nodeid, unsigned char *buff, int size, int mbreg)
 {
-    int n, bit, word, buffbit, buffbyte;
+    int n, bytes, result;
     unsigned int regsize;
+    tag_index idx;
     uint16_t index, count;
-    uint16_t reg[150];
+    uint16_t reg[128];
 
     COPYWORD(&index, (uint16_t *)&buff[2]); /* Starting Address */
     COPYWORD(&count, (uint16_t *)&buff[4]); /* Number of disc/coils requested */
 
     if(mbreg == MB_REG_COIL) {
-        slave_read_database(port->nodes[nodeid]->coil_idx, mbreg, index, count, reg);
+        idx = port->nodes[nodeid]->coil_idx;
         regsize = port->nodes[nodeid]->coil_size;
     } else {
-        slave_read_database(port->nodes[nodeid]->disc_idx, mbreg, index, count, reg);
+        idx = port->nodes[nodeid]->disc_idx;
         regsize = port->nodes[nodeid]->disc_size;
     }
-
-    if(((count - 1)/8+1) > (size - 3)) { /* Make sure we have enough room */
-        return MB_ERR_OVERFLOW;
+    result = _check_range(index, count, 2000, regsize);
+    if(result) {
+        return _create_exception(buff, result);
     }
-    if((index + count) > regsize) {
-        return _create_exception(buff, ME_BAD_ADDRESS);
+    bytes = (count - 1)/8 + 1;
+    if(bytes > (size - 3)) { /* Make sure we have enough room */
+        return _create_exception(buff, ME_BAD_VALUE);
     }
-    buff[2] = (count - 1)/8+1;
-
-    bit = 0;
-    word = 0;
-    buffbit = 0;
-    buffbyte = 3;
+    bzero(reg, sizeof(reg));
+    if(slave_read_database(idx, mbreg, index, count, reg)) {
+        return _create_exception(buff, ME_DEVICE_FAIL);
+    }
+    buff[2] = bytes;
+    bzero(&buff[3], bytes);
     for(n = 0; n < count; n++) {
-        if(reg[word] & (0x01 << bit)) {
-            buff[buffbyte] |= (0x01 << buffbit);
-        } else {
-            buff[buffbyte] &= ~(0x01 << buffbit);
-        }
-        buffbit++;
-        if(buffbit == 8) {
-            buffbit = 0; buffbyte++;
-        }
-        bit++;
-        if(bit == 16) {
-            bit = 0; word++;
+        if(reg[n/16] & (0x01 << (n%16))) {
+            buff[3 + n/8] |= (0x01 << (n%8));
         }
     }
-    return (count - 1)/8+4;
+    return bytes + 3;
 }
 
 /* Handles responses for function codes 3 and 4 */
 static int
 _read_words_response(mb_port *port, int nodeid, unsigned char *buff, int size, int mbreg)
 {
-    int n;
+    int n, result;
     unsigned int regsize;
+    tag_index idx;
     uint16_t index, count;
-    uint16_t reg[150]; /* This is where we will store the data */
+    uint16_t reg[128]; /* This is where we will store the data */
 
     COPYWORD(&index, (uint16_t *)&buff[2]); /* Starting Address */
     COPYWORD(&count, (uint16_t *)&buff[4]); /* Number of words/coils */
 
     if(mbreg == MB_REG_HOLDING) {
-        slave_read_database(port->nodes[nodeid]->hold_idx, mbreg, index, count, reg);
+        idx = port->nodes[nodeid]->hold_idx;
         regsize = port->nodes[nodeid]->hold_size;
     } else {
-        slave_read_database(port->nodes[nodeid]->input_idx, mbreg, index, count, reg);
+        idx = port->nodes[nodeid]->input_idx;
         regsize = port->nodes[nodeid]->input_size;
     }
-
+    result = _check_range(index, count, 125, regsize);
+    if(result) {
+        return _create_exception(buff, result);
+    }
     if((count * 2) > (size - 3)) { /* Make sure we have enough room */
-        return MB_ERR_OVERFLOW;
+        return _create_exception(buff, ME_BAD_VALUE);
     }
-    if((index + count) > regsize) {
-        return _create_exception(buff, ME_BAD_ADDRESS);
+    bzero(reg, sizeof(reg));
+    if(slave_read_database(idx, mbreg, index, count, reg)) {
+        return _create_exception(buff, ME_DEVICE_FAIL);
     }
     buff[2] = count * 2;
     for(n = 0; n < count; n++) {
@@ -864,60 +872,81 @@ _check_function_code_exception(mb_port *port, int nodeid, uint8_t function) {
     return ME_WRONG_FUNCTION;
 }
 
+/* The callback functions live in the configuration's Lua state and all of the
+ * port threads share that */
+static pthread_mutex_t _lua_lock = PTHREAD_MUTEX_INITIALIZER;
+
+/* Calls the callback function that is stored in the Lua registry at 'ref'.  Returns
+ * whatever the callback returned, or zero if the callback failed */
+static int
+_run_callback(mb_port *port, int ref, int node, int function, int index, int count)
+{
+    int result = 0;
+    lua_State *L;
+
+    pthread_mutex_lock(&_lua_lock);
+    L = dax_get_luastate(ds);
+    lua_settop(L, 0); /* Delete the stack */
+    /* Get the filter function from the registry and push it onto the stack */
+    lua_rawgeti(L, LUA_REGISTRYINDEX, ref);
+    lua_pushinteger(L, node);     /* First argument is the node number */
+    lua_pushinteger(L, function); /* Second argument is the function code */
+    lua_pushinteger(L, index); /* Third argument is the requested register (0 based)  */
+    lua_pushinteger(L, count); /* fourth argument is the count */
+    if(lua_pcall(L, 4, 1, 0) != LUA_OK) {
+        dax_log(DAX_LOG_ERROR, "callback funtion for %s - %d: %s", port->name, node, lua_tostring(L, -1));
+    } else { /* Success */
+        result = lua_tointeger(L, -1);
+    }
+    pthread_mutex_unlock(&_lua_lock);
+    return result;
+}
+
 /* Creates a generic slave response.  buff should point to a buffer that
  * looks like an RTU request without the checksum.  This function will generate
- * an RTU response message, and write that back into buff.  size is the total
- * size that we can write into buff.  Returns positive number of bytes written, zero
- * if no bytes written and negative error code if there is a problem. */
+ * an RTU response message, and write that back into buff.  len is the number of
+ * bytes in the request and size is the total size that we can write into buff.
+ * Returns positive number of bytes written or zero if there is no response */
 int
-create_response(mb_port *port, unsigned char *buff, int size)
+create_response(mb_port *port, unsigned char *buff, int len, int size)
 {
     uint8_t node, function;
-    uint16_t index, value, count;
+    uint16_t index = 0, value, count = 1;
     uint16_t data[128]; /* should be the largest Modbus data size */
-    int word, bit, n;
-    int8_t result, retval;
-    lua_State *L;
+    int n, result;
 
+    if(len < 2) return 0; /* There is nothing here that we could answer */
     node = buff[0]; /* Node Number */
     function = buff[1]; /* Modbus Function Code */
 
-    if(port->nodes[node] == NULL) { /* No configuration for this node */
+    if(node >= MB_MAX_SLAVE_NODES || port->nodes[node] == NULL) { /* No configuration for this node */
         if(port->nodes[0] != NULL) { /* We use node 0 as the default */
             node = 0;
         } else {
             return 0; /* Otherwise we ignore */
         }
     }
-
-    if(port->nodes[node]->read_callback != LUA_REFNIL) {
-        if(function == 1 || function == 2 || function == 3 || function == 4)  {
-            COPYWORD(&index, (uint16_t *)&buff[2]); /* Starting Address */
-            COPYWORD(&count, (uint16_t *)&buff[4]); /* Count */
-            L = dax_get_luastate(ds);
-
-            lua_settop(L, 0); /* Delete the stack */
-            /* Get the filter function from the registry and push it onto the stack */
-            lua_rawgeti(L, LUA_REGISTRYINDEX, port->nodes[node]->read_callback);
-            lua_pushinteger(L, node);     /* First argument is the node number */
-            lua_pushinteger(L, function); /* Second argument is the function code */
-            lua_pushinteger(L, index); /* Third argument is the requested register (0 based)  */
-            lua_pushinteger(L, count); /* fourth argument is the count */
-            if(lua_pcall(L, 4, 1, 0) != LUA_OK) {
-                dax_log(DAX_LOG_ERROR, "callback funtion for %s - %d: %s", port->name, node, lua_tostring(L, -1));
-            } else { /* Success */
-                result = lua_tointeger(L, -1);
+    if(len >= 6) {
+        COPYWORD(&index, (uint16_t *)&buff[2]); /* Starting Address */
+        COPYWORD(&count, (uint16_t *)&buff[4]); /* Count */
+        if(port->nodes[node]->read_callback != LUA_REFNIL) {
+            if(function == 1 || function == 2 || function == 3 || function == 4)  {
+                /* If the Lua callback function returns a non-zero integer then create an
+                   exception message with that integer */
+                result = _run_callback(port, port->nodes[node]->read_callback, node, function, index, count);
+                if(result) {
+                    return _create_exception(buff, result);
+                }
             }
         }
     }
-    /* If the Lua callback function returns a non-zero integer then create an
-       exception message with that integer */
-    if(result) {
-        return _create_exception(buff, result);
-    }
     if(_check_function_code_exception(port, node, function)) {
         return _create_exception(buff, ME_WRONG_FUNCTION);
     }
+    if(len < 6) { /* All of the requests that we understand have at least this */
+        return _create_exception(buff, ME_BAD_VALUE);
+    }
+    bzero(data, sizeof(data));
 
     switch(function) {
         case 1: /* Read Coils */
@@ -929,94 +958,76 @@ create_response(mb_port *port, unsigned char *buff, int size)
         case 4: /* Read Input Registers */
             return _read_words_response(port, node, buff, size, MB_REG_INPUT);
         case 5: /* Write Single Coil */
-            COPYWORD(&index, (uint16_t *)&buff[2]); /* Starting Address */
             COPYWORD(&value, (uint16_t *)&buff[4]); /* Value */
-            if(index >= port->nodes[node]->coil_size) {
-                return _create_exception(buff, ME_BAD_ADDRESS);
+            count = 1;
+            if(value != 0xFF00 && value != 0x0000) {
+                return _create_exception(buff, ME_BAD_VALUE);
             }
-            if(value) {
-                data[0] = 0x01;
-            } else {
-                data[0] = 0x00;
+            result = _check_range(index, count, 1, port->nodes[node]->coil_size);
+            if(result) {
+                return _create_exception(buff, result);
             }
-            slave_write_database(port->nodes[node]->coil_idx, MB_REG_COIL, index, 1, data);
-            retval = 6;
+            data[0] = value ? 0x01 : 0x00;
+            result = slave_write_database(port->nodes[node]->coil_idx, MB_REG_COIL, index, 1, data);
             break;
         case 6: /* Write Single Register */
-            COPYWORD(&index, (uint16_t *)&buff[2]); /* Starting Address */
             COPYWORD(&value, (uint16_t *)&buff[4]); /* Value */
-            if(index >= port->nodes[node]->hold_size) {
-                return _create_exception(buff, ME_BAD_ADDRESS);
+            count = 1;
+            result = _check_range(index, count, 1, port->nodes[node]->hold_size);
+            if(result) {
+                return _create_exception(buff, result);
             }
             data[0] = value;
-            slave_write_database(port->nodes[node]->hold_idx, MB_REG_HOLDING, index, 1, data);
-            retval = 6;
+            result = slave_write_database(port->nodes[node]->hold_idx, MB_REG_HOLDING, index, 1, data);
             break;
-        case 8:
-            return size / 2;
+        case 8: /* Diagnostics, the only one we have is to return the request */
+            if(index != 0) {
+                return _create_exception(buff, ME_WRONG_FUNCTION);
+            }
+            return len;
         case 15: /* Write Multiple Coils */
-            COPYWORD(&index, (uint16_t *)&buff[2]); /* Starting Address */
-            COPYWORD(&count, (uint16_t *)&buff[4]); /* Count */
-            if((index + count) > port->nodes[node]->coil_size) {
-                return _create_exception(buff, ME_BAD_ADDRESS);
+            result = _check_range(index, count, 1968, port->nodes[node]->coil_size);
+            if(result) {
+                return _create_exception(buff, result);
+            }
+            if(len < 7 || buff[6] != (count - 1)/8 + 1 || len < 7 + buff[6]) {
+                return _create_exception(buff, ME_BAD_VALUE);
             }
-            word = 0;
-            bit = 0;
             for(n = 0; n < count; n++) {
                 if(buff[7 + n/8] & (0x01 << (n%8))) {
-                    data[word] |= (0x01 << bit);
-                } else {
-                    data[word] &= ~(0x01 << bit);
+                    data[n/16] |= (0x01 << (n%16));
                 }
-                bit++;
-                if(bit == 16) { bit = 0; word++; }
             }
-            slave_write_database(port->nodes[node]->coil_idx, MB_REG_COIL, index, count, data);
-            retval = 6;
+            result = slave_write_database(port->nodes[node]->coil_idx, MB_REG_COIL, index, count, data);
             break;
         case 16: /* Write Multiple Registers */
-            COPYWORD(&index, (uint16_t *)&buff[2]); /* Starting Address */
-            COPYWORD(&count, (uint16_t *)&buff[4]); /* Count */
-            if((index + count) > port->nodes[node]->hold_size) {
-                return _create_exception(buff, ME_BAD_ADDRESS);
+            result = _check_range(index, count, 123, port->nodes[node]->hold_size);
+            if(result) {
+                return _create_exception(buff, result);
+            }
+            if(len < 7 || buff[6] != count * 2 || len < 7 + buff[6]) {
+                return _create_exception(buff, ME_BAD_VALUE);
             }
             for(n = 0; n < count; n++) {
                 COPYWORD(&data[n], &buff[7 + (n*2)]);
             }
-            slave_write_database(port->nodes[node]->hold_idx, MB_REG_HOLDING, index, count, data);
-            retval = 6;
+            result = slave_write_database(port->nodes[node]->hold_idx, MB_REG_HOLDING, index, count, data);
             break;
         default:
-            break;
+            return _create_exception(buff, ME_WRONG_FUNCTION);
+    }
+    if(result) { /* The data didn't get written */
+        return _create_exception(buff, ME_DEVICE_FAIL);
     }
 
     /* We should only get this far if we have had a successful write response created*/
     if(port->nodes[node]->write_callback != LUA_REFNIL) {
-        if(function == 5 || function == 6 || function == 15 || function == 16)  {
-            L = dax_get_luastate(ds);
-
-            lua_settop(L, 0); /* Delete the stack */
-            /* Get the filter function from the registry and push it onto the stack */
-            lua_rawgeti(L, LUA_REGISTRYINDEX, port->nodes[node]->write_callback);
-            lua_pushinteger(L, node);     /* First argument is the node number */
-            lua_pushinteger(L, function); /* Second argument is the function code */
-            lua_pushinteger(L, index); /* Third argument is the requested register (0 based)  */
-            if(function == 5 || function == 6) {
-                lua_pushinteger(L, 1); /* fourth argument is the count for fc 5&6 it's going to be 1*/
-            } else {
-                lua_pushinteger(L, count); /* fourth argument is the count */
-            }
-            if(lua_pcall(L, 4, 1, 0) != LUA_OK) {
-                dax_log(DAX_LOG_ERROR, "callback funtion for %s - %d: %s", port->name, node, lua_tostring(L, -1));
-            } else { /* Success */
-                result = lua_tointeger(L, -1);
-            }
+        /* If the write Lua callback returns non-zero then we create an exception for that
+           result.  Otherwise just continue on */
+        result = _run_callback(port, port->nodes[node]->write_callback, node, function, index, count);
+        if(result) {
+            return _create_exception(buff, result);
         }
     }
-    /* If the write Lua callback returns non-zero then we create an exception for that
-       result.  Otherwise just continue on */
-    if(result) {
-        return _create_exception(buff, result);
-    }
-    return retval;
+    return 6;
 }
diff --git a/src/modules/modbus/modbus.h b/src/modules/modbus/modbus.h
index 588e2c1..c511af1 100644
--- a/src/modules/modbus/modbus.h
+++ b/src/modules/modbus/modbus.h
@@ -97,6 +97,8 @@
 #define ME_WRONG_FUNCTION 1
 #define ME_BAD_ADDRESS    2
 #define ME_WRONG_DEVICE   3
+#define ME_BAD_VALUE      3   /* Exception code for an illegal data value */
+#define ME_DEVICE_FAIL    4   /* Exception code for a failure of the device */
 #define ME_CHECKSUM       4
 #define ME_TIMEOUT        8
 
@@ -148,7 +150,10 @@
 /* Number of slave nodes allocated */
 #define MB_MAX_SLAVE_NODES 248
 /* Maximum size of the receive buffer */
-#define MB_BUFF_SIZE 256
+#define MB_BUFF_SIZE 260
+/* Maximum size of a message without the header or the checksum.  The
+ * unit id and the 253 bytes of PDU that the protocol allows */
+#define MB_MAX_MSG_SIZE 254
 /* Starting number of connections in the pool */
 #define MB_INIT_CONNECTION_SIZE 16
 /* Maximum number of connections that can be in the pool */
@@ -336,7 +341,7 @@ int server_loop(mb_port *port);
 int slave_loop(mb_port *port);
 
 /* Protocol Functions - defined in modbus.c */
-int create_response(mb_port * port, unsigned char *buff, int size);
+int create_response(mb_port * port, unsigned char *buff, int len, int size);
 
 /* Utility Functions - defined in modutil.c */
 uint16_t crc16(unsigned char *msg, unsigned short length);
-- 
2.43.0


From a8436c7c05cf2d991ec7a0b02f5ac63a386f120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:27 +0000
Subject: [PATCH 34/64] fix: Modbus server keeps its TCP streams apart and
 survives resets, pipelining and bad headers

---
 src/modules/modbus/mbserver.c | 123 +++++++++++++++++++++-------------
 1 file changed, 78 insertions(+), 45 deletions(-)

diff --git a/src/modules/modbus/mbserver.c b/src/modules/modbus/mbserver.c
index 51058ad..3cfb5c4 100644
--- a/src/modules/modbus/mbserver.c
+++ b/src/modules/modbus/mbserver.c
@@ -94,9 +94,22 @@ _clear_buffers(mb_port *port)
 static int
 _del_connection(mb_port *port, int fd)
 {
+    struct client_buffer **link, *this;
 
     close(fd);
     _del_fd(port, fd);
+    /* The buffer goes with the connection.  Otherwise the next connection that
+     * gets this file descriptor would find whatever this one left behind */
+    link = &port->buff_head;
+    while(*link != NULL) {
+        this = *link;
+        if(this->fd == fd) {
+            *link = this->next;
+            free(this);
+        } else {
+            link = &this->next;
+        }
+    }
     return 0;
 }
 
@@ -115,52 +128,73 @@ _get_buff_ptr(mb_port *port, int fd)
     return NULL;
 }
 
+/* Handles the request at the beginning of the buffer and sends the response. 'msgsize'
+ * is the size from the header, that is the size of the message after the header. */
 static int
-_mb_read(mb_port *port, int fd)
+_handle_request(mb_port *port, struct client_buffer *cc, uint16_t msgsize)
 {
-    int result, size;
-    unsigned char buff[100];
-    struct client_buffer *cc;
-    uint16_t msgsize;
+    unsigned char buff[MB_BUFF_SIZE];
+    uint16_t size;
+    int result;
 
-    size = 100;
-    result = read(fd, buff, size);
-    if(result < 0) {
-        return MB_ERR_RECV_FAIL;
-    } if(result == 0) { /* EOF means the other guy is closed */
-        return MB_ERR_NO_SOCKET;
+    if(port->in_callback) {
+        port->in_callback(port, cc->buff, msgsize + 6);
+    }
+    memcpy(buff, cc->buff, msgsize + 6);
+    result = create_response(port, &(buff[6]), msgsize, MB_MAX_MSG_SIZE);
+    if(result > 0) { /* We have a response */
+        size = result;
+        COPYWORD(&(buff[4]), &size);
+        if(port->out_callback) {
+            port->out_callback(port, buff, result + 6);
+        }
+        /* A client that doesn't read its responses must not stop us from serving the others */
+        if(send(cc->fd, buff, result + 6, MSG_NOSIGNAL | MSG_DONTWAIT) != result + 6) {
+            dax_log(DAX_LOG_ERROR, "Unable to send the response on fd %d", cc->fd);
+            return MB_ERR_NO_SOCKET;
+        }
+    } else if(result < 0) {
+        dax_log(DAX_LOG_ERROR, "Error Code Returned %d", result);
     }
+    return 0;
+}
+
+/* Reads what the client has sent us and answers all of the requests that are complete.
+ * Returns MB_ERR_NO_SOCKET if the connection should be closed. */
+static int
+_mb_read(mb_port *port, int fd)
+{
+    int result;
+    struct client_buffer *cc;
+    uint16_t msgsize, protocol;
 
     cc = _get_buff_ptr(port, fd);
     assert(cc != NULL); /* If we get this far cc should exist in the port */
 
-    /* Check that we haven't received too big of a message */
-    if((result + cc->buffindex) > MB_BUFF_SIZE) {
-        return MB_ERR_OVERFLOW;
+    result = read(fd, &(cc->buff[cc->buffindex]), MB_BUFF_SIZE - cc->buffindex);
+    if(result < 0) {
+        if(errno == EINTR || errno == EAGAIN) return 0;
+        return MB_ERR_NO_SOCKET; /* Reset by the other guy */
+    } if(result == 0) { /* EOF means the other guy is closed */
+        return MB_ERR_NO_SOCKET;
     }
-    memcpy(&(cc->buff[cc->buffindex]), buff, result); /* Copy the new data to the buffer */
     cc->buffindex += result;
-    if(cc->buffindex > 5) {
-        COPYWORD(&msgsize, (uint16_t *)&cc->buff[4]); /* Get the Modbus Message size */
-        if(cc->buffindex >= (msgsize + 6)) {
-            if(port->in_callback) {
-                port->in_callback(port, cc->buff, cc->buffindex);
-            }
 
-            result = create_response(port, &(cc->buff[6]), msgsize, MB_MAX_MSG_SIZE);
-            if(result > 0) { /* We have a response */
-                msgsize = result;
-                COPYWORD(&(cc->buff[4]), &msgsize);
-                if(port->out_callback) {
-                    port->out_callback(port, cc->buff, result + 6);
-                }
-                write(cc->fd, cc->buff, result + 6);
-                cc->buffindex = 0;
-            } else if(result < 0) {
-                dax_log(DAX_LOG_ERROR, "Error Code Returned %d", result);
-                return result;
-            }
+    while(cc->buffindex > 5) {
+        COPYWORD(&protocol, (uint16_t *)&cc->buff[2]); /* Get the Protocol ID */
+        COPYWORD(&msgsize, (uint16_t *)&cc->buff[4]); /* Get the Modbus Message size */
+        if(protocol != 0 || msgsize < 2 || msgsize > MB_MAX_MSG_SIZE) {
+            /* There is no way to find the next message after this */
+            dax_log(DAX_LOG_ERROR, "Bad message header on fd %d", fd);
+            return MB_ERR_NO_SOCKET;
+        }
+        if(cc->buffindex < (msgsize + 6)) break; /* We don't have it all yet */
+        if(_handle_request(port, cc, msgsize)) {
+            return MB_ERR_NO_SOCKET;
         }
+        /* What's left is the beginning of the next request */
+        cc->buffindex -= msgsize + 6;
+        memmove(cc->buff, &(cc->buff[msgsize + 6]), cc->buffindex);
     }
     return 0;
 }
@@ -238,21 +272,26 @@ _receive(mb_port *port)
         for(n = 0; n <= port->maxfd; n++) {
             if(FD_ISSET(n, &tmpset)) {
                 if(n == port->fd) { /* This is a listening socket */
+                    len = sizeof(addr);
                     fd = accept(n, (struct sockaddr *)&addr, &len);
                     if(fd < 0) {
                         /* TODO: Need to handle these communication errors */
                         dax_log(DAX_LOG_ERROR, "Error Accepting socket: %s", strerror(errno));
+                    } else if(fd >= FD_SETSIZE) { /* It doesn't fit into our fdset */
+                        dax_log(DAX_LOG_ERROR, "Too many connections on port %s", port->name);
+                        close(fd);
                     } else {
-                        dax_log(DAX_LOG_MAJOR, "Accepted socket on fd %d", n);
-                        _add_connection(port, fd);
+                        dax_log(DAX_LOG_MAJOR, "Accepted socket on fd %d", fd);
+                        if(_add_connection(port, fd)) {
+                            dax_log(DAX_LOG_ERROR, "Unable to allocate memory for the connection");
+                            close(fd);
+                        }
                     }
                 } else {
                     result = _mb_read(port, n);
                     if(result == MB_ERR_NO_SOCKET) { /* This is the end of file */
                         dax_log(DAX_LOG_MAJOR, "Disconnected socket on fd %d", n);
                         _del_connection(port, n);
-                    } else if(result < 0) {
-                        return result; /* Pass the error up */
                     }
                 }
             }
@@ -276,13 +315,7 @@ server_loop(mb_port *port)
     }
     while(1) {
         result = _receive(port);
-        if(result) {
-            if(result == MB_ERR_OVERFLOW) {
-                dax_log(DAX_LOG_ERROR, "Buffer Overflow Attempt");
-            } else {
-                return result;
-            }
-        }
+        if(result) return result;
     }
     return -1; /* Can never get here */
 }
-- 
2.43.0


From 6149ae1e18a65f4e103b966cf5c0e68c74bb58d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:41 +0000
Subject: [PATCH 35/64] fix: Modbus server port starts again after a failure to
 bind

---
 src/modules/modbus/mbports.c  |  2 ++
 src/modules/modbus/mbserver.c | 10 ++++++----
 src/modules/modbus/mbslave.c  |  2 ++
 src/modules/modbus/modbus.c   | 17 ++++++++++++++---
 src/modules/modbus/modbus.h   |  2 ++
 5 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/modules/modbus/mbports.c b/src/modules/modbus/mbports.c
index ca38732..c7af1b1 100644
--- a/src/modules/modbus/mbports.c
+++ b/src/modules/modbus/mbports.c
@@ -49,6 +49,7 @@ initport(mb_port *p)
     FD_ZERO(&(p->fdset));
     p->maxfd = 0;
     p->running = 0;
+    p->started = 0;
     p->inhibit = 0;
     p->commands = NULL;
     p->out_callback = NULL;
@@ -279,6 +280,7 @@ mb_set_network_port(mb_port *port, const char *ipaddress, unsigned int bindport,
         strcpy(port->ipaddress, "0.0.0.0");
     } else {
         strncpy(port->ipaddress, ipaddress, 15);
+        port->ipaddress[15] = '\0';
     }
 
     port->bindport = bindport;
diff --git a/src/modules/modbus/mbserver.c b/src/modules/modbus/mbserver.c
index 3cfb5c4..84b85fd 100644
--- a/src/modules/modbus/mbserver.c
+++ b/src/modules/modbus/mbserver.c
@@ -21,7 +21,6 @@
 #include "modbus.h"
 
 extern dax_state *ds;
-extern pthread_barrier_t port_barrier;
 extern pthread_mutex_t port_lock;
 
 
@@ -204,12 +203,15 @@ static int
 _server_listen(mb_port *port)
 {
     struct sockaddr_in addr;
-    int fd;
+    int fd, on = 1;
 
     fd = socket(AF_INET, SOCK_STREAM, 0);
     if(fd < 0) {
+        mb_startup_wait(port);
         return -1;
     }
+    /* Old connections that are waiting to time out shouldn't keep us from starting again */
+    setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &on, sizeof(on));
     bzero(&addr, sizeof(addr));
 
     addr.sin_family = AF_INET;
@@ -219,11 +221,11 @@ _server_listen(mb_port *port)
     if(bind(fd, (const struct sockaddr *)&addr, sizeof(addr))) {
         dax_log(DAX_LOG_ERROR, "Failed to bind %s:%d", port->ipaddress, port->bindport);
         close(fd);
-        pthread_barrier_wait(&port_barrier);
+        mb_startup_wait(port);
         return -1;
     }
     /* Wait for all of the ports to bind */
-    pthread_barrier_wait(&port_barrier);
+    mb_startup_wait(port);
     /* Wait for the main thread to change our user / group ids */
     pthread_mutex_lock(&port_lock);
     pthread_mutex_unlock(&port_lock); /* We don't do anything but wait so unlock here */
diff --git a/src/modules/modbus/mbslave.c b/src/modules/modbus/mbslave.c
index e5d40e6..5e665a0 100644
--- a/src/modules/modbus/mbslave.c
+++ b/src/modules/modbus/mbslave.c
@@ -55,6 +55,8 @@ _mb_read(mb_port *port, int fd)
             result = read(fd, &buff[buffindex], MB_BUFF_SIZE-buffindex);
             if(result < 0) {
                 dax_log(DAX_LOG_ERROR, "Error reading Serial port on fd = %d", fd);
+                close(fd);
+                port->fd = 0; /* So that the port will be opened again */
                 return MB_ERR_RECV_FAIL;
             } else if(result > 0) {
                 buffindex += result;
diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index 4fb5774..954752f 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -39,6 +39,16 @@ timediff(struct timeval oldtime,struct timeval newtime)
 };
 
 
+/* Waits until all of the other ports have gotten this far.  The main thread only
+ * waits for us once so this doesn't do anything if we have to start the port again */
+void
+mb_startup_wait(mb_port *port)
+{
+    if(port->started) return;
+    port->started = 1;
+    pthread_barrier_wait(&port_barrier);
+}
+
 /* Opens the port passed in m_port and starts the loop that
  * will handle the port */
 int
@@ -47,13 +57,14 @@ mb_run_port(struct mb_port *m_port)
     int result;
 
     while(1) {
+        result = 0;
         /* If the port is not already open */
         if(!m_port->fd) {
             result = mb_open_port(m_port);
         }
         if(result) {
             dax_log(DAX_LOG_ERROR, "Failed to open port %s - %s", m_port->name, strerror(errno));
-            pthread_barrier_wait(&port_barrier); /* For clients and masters we just need to get past this */
+            mb_startup_wait(m_port); /* For clients and masters we just need to get past this */
         } else {
             /* If the port is still not open then we inhibit the port and
              * let the _loop() functions deal with it */
@@ -62,7 +73,7 @@ mb_run_port(struct mb_port *m_port)
             }
 
             if(m_port->type == MB_MASTER) {
-                pthread_barrier_wait(&port_barrier); /* For clients and masters we just need to get past this */
+                mb_startup_wait(m_port); /* For clients and masters we just need to get past this */
                 if(m_port->protocol == MB_TCP) {
                     dax_log(DAX_LOG_MAJOR, "Starting client loop for %s", m_port->name);
                     return client_loop(m_port);
@@ -76,7 +87,7 @@ mb_run_port(struct mb_port *m_port)
                     result = server_loop(m_port);
                     if(result) dax_log(DAX_LOG_ERROR, "Server loop exited with error, %d port %s", result, m_port->name);
                 } else {
-                    pthread_barrier_wait(&port_barrier); /* Doesn't matter since the port is already open */
+                    mb_startup_wait(m_port); /* Doesn't matter since the port is already open */
                     dax_log(DAX_LOG_MAJOR, "Start Slave Loop for port %s", m_port->name);
                     result = slave_loop(m_port);
                     if(result) dax_log(DAX_LOG_ERROR, "Slave loop exited with error, %d port %s", result, m_port->name);
diff --git a/src/modules/modbus/modbus.h b/src/modules/modbus/modbus.h
index c511af1..a13d75f 100644
--- a/src/modules/modbus/modbus.h
+++ b/src/modules/modbus/modbus.h
@@ -265,6 +265,7 @@ typedef struct mb_port {
     int dienow;
     unsigned int attempt;        /* Attempt counter */
     unsigned char running;       /* Flag to indicate the port is running */
+    unsigned char started;       /* Flag that we have waited for the other ports at startup */
     unsigned char inhibit;       /* When set the port will not be started */
     unsigned int inhibit_time;   /* Number of seconds before the port will be retried */
     unsigned int inhibit_temp;
@@ -327,6 +328,7 @@ int mb_is_read_cmd(mb_cmd *cmd);
 
 /* End New Interface */
 int mb_run_port(mb_port *);
+void mb_startup_wait(mb_port *);
 int mb_send_command(mb_port *, mb_cmd *);
 
 void mb_print_portconfig(FILE *fd, mb_port *mp);
-- 
2.43.0


From 383d51497755cc5f7ccf77107aabee22b6592984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:00 +0000
Subject: [PATCH 36/64] fix: Modbus server accepts multiple writes whose header
 size is too small

---
 src/modules/modbus/mbserver.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/modules/modbus/mbserver.c b/src/modules/modbus/mbserver.c
index 84b85fd..837b29b 100644
--- a/src/modules/modbus/mbserver.c
+++ b/src/modules/modbus/mbserver.c
@@ -188,6 +188,14 @@ _mb_read(mb_port *port, int fd)
             return MB_ERR_NO_SOCKET;
         }
         if(cc->buffindex < (msgsize + 6)) break; /* We don't have it all yet */
+        /* There are clients that don't count all of a multiple write request in the size that
+         * they put in the header.  If what we have received is exactly the request that the
+         * byte count calls for then that's what it is. */
+        if((cc->buff[7] == 15 || cc->buff[7] == 16) && cc->buffindex > 13 &&
+            cc->buff[12] + 7 > msgsize && cc->buff[12] + 7 <= MB_MAX_MSG_SIZE &&
+            cc->buffindex == cc->buff[12] + 13) {
+            msgsize = cc->buff[12] + 7;
+        }
         if(_handle_request(port, cc, msgsize)) {
             return MB_ERR_NO_SOCKET;
         }
-- 
2.43.0


From e0b74ce4329919e740bb09012ebf0e721b5eeee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:51 +0000
Subject: [PATCH 37/64] fix: Modbus command and port options are range checked
 and fully initialised

---
 src/modules/modbus/mbcmds.c | 16 ++++++++++++++--
 src/modules/modbus/modopt.c | 24 +++++++++++++++---------
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/modules/modbus/mbcmds.c b/src/modules/modbus/mbcmds.c
index 04bb0ec..e92c1a6 100644
--- a/src/modules/modbus/mbcmds.c
+++ b/src/modules/modbus/mbcmds.c
@@ -25,6 +25,7 @@
 static void
 initcmd(struct mb_cmd *c)
 {
+    bzero(c, sizeof(struct mb_cmd));
     c->enable = 1;
     c->mode = 0;
     c->node = 0;
@@ -84,6 +85,8 @@ mb_destroy_cmd(mb_cmd *cmd) {
     if(cmd->data != NULL) {
         free(cmd->data);
     }
+    if(cmd->data_tag != NULL) free(cmd->data_tag);
+    if(cmd->trigger_tag != NULL) free(cmd->trigger_tag);
     free(cmd);
 }
 
@@ -116,14 +119,22 @@ mb_set_command(mb_cmd *cmd, uint8_t node, uint8_t function, uint16_t reg, uint16
             return MB_ERR_FUNCTION;
     }
     cmd->m_register = reg;
-    if(function == 1 || function == 2 || function == 15) {
+    if(function == 1 || function == 2) {
         if(length < 1 || length > 2000) {
             return MB_ERR_BAD_ARG;
         }
-    } else if(function == 3 || function == 4 || function == 16) {
+    } else if(function == 15) {
+        if(length < 1 || length > 1968) {
+            return MB_ERR_BAD_ARG;
+        }
+    } else if(function == 3 || function == 4) {
         if(length < 1 || length > 125) {
             return MB_ERR_BAD_ARG;
         }
+    } else if(function == 16) {
+        if(length < 1 || length > 123) {
+            return MB_ERR_BAD_ARG;
+        }
     }
     cmd->length = length;
     switch(function) {
@@ -152,6 +163,7 @@ mb_set_command(mb_cmd *cmd, uint8_t node, uint8_t function, uint16_t reg, uint16
     if(newdata == NULL) {
         return MB_ERR_ALLOC;
     } else {
+        bzero(newdata, newsize);
         cmd->data = newdata;
         cmd->datasize = newsize;
     }
diff --git a/src/modules/modbus/modopt.c b/src/modules/modbus/modopt.c
index 44db5bf..2d9cc11 100644
--- a/src/modules/modbus/modopt.c
+++ b/src/modules/modbus/modopt.c
@@ -252,7 +252,11 @@ _add_port(lua_State *L)
 
     lua_getfield(L, -1, "type");
     string = (char *)lua_tostring(L, -1);
-    if(strcasecmp(string, "MASTER") == 0) type = MB_MASTER;
+    if(string == NULL) {
+        dax_log(DAX_LOG_WARN, "Port Type not given, assuming MASTER");
+        type = MB_MASTER;
+    }
+    else if(strcasecmp(string, "MASTER") == 0) type = MB_MASTER;
     else if(strcasecmp(string, "SLAVE") == 0) type = MB_SLAVE;
     else if(strcasecmp(string, "CLIENT") == 0) type = MB_MASTER;
     else if(strcasecmp(string, "SERVER") == 0) type = MB_SLAVE;
@@ -286,7 +290,7 @@ _add_port(lua_State *L)
 
     lua_getfield(L, -1, "retries");
     p->retries = (unsigned int)lua_tonumber(L, -1);
-    if(p->retries == 0) p->timeout = 1;
+    if(p->retries == 0) p->retries = 1;
     if(p->retries > MAX_RETRIES) p->retries = MAX_RETRIES;
     lua_pop(L, 1);
 
@@ -332,8 +336,7 @@ _add_command(lua_State *L)
     mb_cmd *c;
     const char *string;
     int result;
-    uint8_t node, function;
-    uint16_t reg, length;
+    lua_Integer node, function, reg, length;
     int p; /* Port ID */
     mb_port *port;
 
@@ -359,18 +362,21 @@ _add_command(lua_State *L)
     }
 
     lua_getfield(L, -1, "node");
-    node = (uint8_t)lua_tonumber(L, -1);
+    node = lua_tointeger(L, -1);
 
     lua_getfield(L, -2, "fcode");
-    function = (uint8_t)lua_tonumber(L, -1);
+    function = lua_tointeger(L, -1);
 
     lua_getfield(L, -3, "register");
-    reg = (uint16_t)lua_tonumber(L, -1);
+    reg = lua_tointeger(L, -1);
 
     lua_getfield(L, -4, "length");
-    length = (uint16_t)lua_tonumber(L, -1);
+    length = lua_tointeger(L, -1);
 
-    if(mb_set_command(c, node, function, reg, length)) {
+    /* These don't all fit so we have to check before they get cut */
+    if(node < 0 || node > UINT8_MAX || function < 0 || function > UINT8_MAX ||
+       reg < 0 || reg > UINT16_MAX || length < 0 || length > UINT16_MAX ||
+       mb_set_command(c, node, function, reg, length)) {
         dax_log(DAX_LOG_ERROR, "Unable to set command");
     }
     lua_pop(L, 4);
-- 
2.43.0


From d196f96dc09448f487cad45801eefc92fde6e9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:51 +0000
Subject: [PATCH 38/64] fix: Modbus master checks responses against requests,
 bounds them and recovers dropped connections

---
 src/modules/modbus/mbports.c |  82 ++++-
 src/modules/modbus/modbus.c  | 646 ++++++++++++++++++-----------------
 src/modules/modbus/modbus.h  |   4 +
 3 files changed, 414 insertions(+), 318 deletions(-)

diff --git a/src/modules/modbus/mbports.c b/src/modules/modbus/mbports.c
index c7af1b1..80d9bb0 100644
--- a/src/modules/modbus/mbports.c
+++ b/src/modules/modbus/mbports.c
@@ -18,6 +18,7 @@
  * Source file for mb_port handling functions
  */
 
+#include <poll.h>
 #include "modbus.h"
 
 extern dax_state *ds;
@@ -55,10 +56,20 @@ initport(mb_port *p)
     p->out_callback = NULL;
     p->in_callback = NULL;
     strcpy(p->ipaddress, "0.0.0.0");
-    p->connections = malloc(sizeof(tcp_connection) * MB_INIT_CONNECTION_SIZE);
+    p->connections = calloc(MB_INIT_CONNECTION_SIZE, sizeof(tcp_connection));
     p->connection_size = MB_INIT_CONNECTION_SIZE;
     p->connection_count = 0;
     p->persist = 1;
+    p->scanning = 0;
+    p->tid = 0;
+    p->attempt = 0;
+    p->maxattempts = 0;
+    p->inhibit_time = 0;
+    p->inhibit_temp = 0;
+    p->dienow = 0;
+    p->socket = TCP_SOCK;
+    bzero(&p->command_h, sizeof(tag_handle));
+    p->cmd = NULL;
     pthread_mutex_init(&p->send_lock, NULL);
 };
 
@@ -162,30 +173,51 @@ openport(mb_port *m_port)
 int
 openIPport(mb_port *mp, struct in_addr address, uint16_t port)
 {
-    int fd = 0;
+    int fd = -1;
     struct sockaddr_in addr;
-    int result;
+    struct pollfd pfd;
+    int result, error = 0;
+    socklen_t size = sizeof(error);
 
     if(mp->socket == TCP_SOCK) {
-    	fd = socket(AF_INET, SOCK_STREAM, 0);
+        fd = socket(AF_INET, SOCK_STREAM, 0);
     } else if (mp->socket == UDP_SOCK) {
         fd = socket(AF_INET, SOCK_DGRAM, 0);
     }
+    if(fd < 0) {
+        dax_log(DAX_LOG_ERROR, "Unable to create socket - %s", strerror(errno));
+        return -1;
+    }
+    result = fcntl(fd, F_SETFL, O_NONBLOCK);
+    if(result) {
+        dax_log(DAX_LOG_ERROR, "Unable to set socket to non blocking");
+        close(fd);
+        return -1;
+    }
 
+    bzero(&addr, sizeof(addr));
     addr.sin_family = AF_INET;
     addr.sin_addr = address;
     addr.sin_port = htons(port);
 
     result = connect(fd, (struct sockaddr *)&addr, sizeof(addr));
-
+    if(result == -1 && errno == EINPROGRESS) {
+        /* We don't wait any longer for the connection than for a response */
+        pfd.fd = fd;
+        pfd.events = POLLOUT;
+        do {
+            result = poll(&pfd, 1, mp->timeout);
+        } while(result < 0 && errno == EINTR);
+        if(result > 0 && getsockopt(fd, SOL_SOCKET, SO_ERROR, &error, &size) == 0 && error == 0) {
+            result = 0;
+        } else {
+            result = -1;
+        }
+    }
     if(result == -1) {
+        close(fd);
         return -1;
     }
-    result = fcntl(fd, F_SETFL, O_NONBLOCK);
-    if(result) {
-        dax_log(DAX_LOG_ERROR, "Unable to set socket to non blocking");
-        return -1 ;
-    }
     return fd;
 }
 
@@ -343,6 +375,7 @@ mb_close_port(mb_port *port)
 
     if(port->devtype == MB_NETWORK) {
         for(int n=0; n<port->connection_count; n++) {
+            if(port->connections[n].fd <= 0) continue; /* We've already dropped this one */
             dax_log(DAX_LOG_COMM, "Closing Connection %d", port->connections[n].fd);
             result = close(port->connections[n].fd);
             port->connections[n].addr.s_addr = 0x0000;
@@ -353,7 +386,7 @@ mb_close_port(mb_port *port)
             }
         }
         port->connection_count = 0;
-    } else {
+    } else if(port->fd > 0) {
         dax_log(DAX_LOG_COMM, "Closing Port %s", port->device);
         result = close(port->fd);
         port->fd = 0;
@@ -365,6 +398,27 @@ mb_close_port(mb_port *port)
 }
 
 
+/* Closes the connection that the port is currently using.  For network ports it is
+ * removed from the connection pool so that the next call to mb_get_connection()
+ * will make a new one.  A serial port is simply closed */
+void
+mb_drop_connection(mb_port *port)
+{
+    if(port->devtype != MB_NETWORK) {
+        mb_close_port(port);
+        return;
+    }
+    for(int n=0; n<port->connection_count; n++) {
+        if(port->connections[n].fd > 0 && port->connections[n].fd == port->fd) {
+            dax_log(DAX_LOG_COMM, "Dropping Connection %d", port->fd);
+            close(port->fd);
+            bzero(&port->connections[n], sizeof(tcp_connection));
+        }
+    }
+    port->fd = 0;
+}
+
+
 int
 mb_set_maxfailures(mb_port *port, int maxfailures, int inhibit)
 {
@@ -430,7 +484,7 @@ mb_get_connection(mb_port *mp, struct in_addr address, uint16_t port) {
     int n, fd;
 
     for(n=0;n<mp->connection_count;n++) {
-        if(mp->connections[n].addr.s_addr == address.s_addr && mp->connections[n].port == port) {
+        if(mp->connections[n].fd > 0 && mp->connections[n].addr.s_addr == address.s_addr && mp->connections[n].port == port) {
             /* We found one that matches */
             return mp->connections[n].fd;
         }
@@ -439,6 +493,10 @@ mb_get_connection(mb_port *mp, struct in_addr address, uint16_t port) {
     fd = openIPport(mp, address, port);
     if(fd>=0) {
         n = _get_unused_connection(mp);
+        if(n < 0) {
+            close(fd);
+            return n;
+        }
         mp->connections[n].addr = address;
         mp->connections[n].port = port;
         mp->connections[n].fd = fd;
diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index 954752f..b018eda 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -20,6 +20,8 @@
 
 
 #include <sys/select.h>
+#include <poll.h>
+#include <time.h>
 #include <pthread.h>
 #include "modbus.h"
 #include "database.h"
@@ -102,6 +104,19 @@ mb_run_port(struct mb_port *m_port)
 }
 
 
+/* Called at the end of each scan of the commands.  If the port shouldn't stay open between
+ * the scans it is closed here.  The events may use the port at the same time. */
+static void
+_stop_scan(mb_port *mp)
+{
+    pthread_mutex_lock(&mp->send_lock);
+    if(!mp->persist) {
+        mb_close_port(mp);
+    }
+    mp->scanning = 0;
+    pthread_mutex_unlock(&mp->send_lock);
+}
+
 /* This is the primary event loop for a Modbus TCP client.  It calls the functions
    to send the request and receive the responses.  It also takes care of the
    retries and the counters. */
@@ -115,6 +130,7 @@ client_loop(mb_port *mp)
     mp->running = 1; /* Tells the world that we are going */
     mp->attempt = 0;
     mp->dienow = 0;
+    mp->scanning = 1;
 
     while(1) {
         gettimeofday(&start, NULL);
@@ -147,10 +163,7 @@ client_loop(mb_port *mp)
         time_spent = (end.tv_sec-start.tv_sec)*1000 + (end.tv_usec/1000 - start.tv_usec/1000);
         /* If it takes longer than the scanrate then just go again instead of sleeping */
         if(time_spent < mp->scanrate) {
-            if(!mp->persist) {
-                mb_close_port(mp);
-            }
-            mp->scanning = 0; /* We're going to assume this is atomic for now */
+            _stop_scan(mp);
             usleep((mp->scanrate - time_spent) * 1000);
             mp->scanning = 1;
         }
@@ -178,6 +191,7 @@ master_loop(mb_port *mp)
     mp->running = 1; /* Tells the world that we are going */
     mp->attempt = 0;
     mp->dienow = 0;
+    mp->scanning = 1;
 
     while(1) {
         gettimeofday(&start, NULL);
@@ -205,11 +219,18 @@ master_loop(mb_port *mp)
         }
         if(mp->inhibit) {
             bail = 0;
+            pthread_mutex_lock(&mp->send_lock);
             mb_close_port(mp);
+            pthread_mutex_unlock(&mp->send_lock);
             if(mp->inhibit_time) {
                 sleep(mp->inhibit_time);
+                pthread_mutex_lock(&mp->send_lock);
                 result = mb_open_port(mp);
-                if(result == 0) mp->inhibit = 0;
+                if(result == 0) {
+                    mp->inhibit = 0;
+                    mp->attempt = 0;
+                }
+                pthread_mutex_unlock(&mp->send_lock);
             } else {
                 return MB_ERR_PORTFAIL;
             }
@@ -221,10 +242,9 @@ master_loop(mb_port *mp)
         time_spent = (end.tv_sec-start.tv_sec)*1000 + (end.tv_usec/1000 - start.tv_usec/1000);
         /* If it takes longer than the scanrate then just go again instead of sleeping */
         if(time_spent < mp->scanrate) {
-            if(!mp->persist) {
-                mb_close_port(mp);
-            }
+            _stop_scan(mp);
             usleep((mp->scanrate - time_spent) * 1000);
+            mp->scanning = 1;
         }
     }
     /* Close the port */
@@ -234,111 +254,81 @@ master_loop(mb_port *mp)
     return MB_ERR_PORTFAIL;
 }
 
-/* This function formulates and sends the Modbus RTU master request */
+/* Builds the part of the request that is common to all of the protocols.  That is
+ * the node (or unit id), the function code and the rest of the PDU.  buff should be at
+ * least MB_MAX_MSG_SIZE in length.  Returns the length of the message or a negative
+ * number if we don't know how to build a request for this command. */
 static int
-sendRTUrequest(mb_port *mp, mb_cmd *cmd)
+_build_request(mb_cmd *cmd, uint8_t *buff)
 {
-    uint8_t buff[MB_FRAME_LEN], length;
-    uint16_t crc, temp;
+    int n, bytes;
 
-    /* build the request message */
-    buff[0]=cmd->node;
-    buff[1]=cmd->function;
+    buff[0] = cmd->node;
+    buff[1] = cmd->function;
+    COPYWORD(&buff[2], &cmd->m_register);
 
     switch (cmd->function) {
-        case 1:
-        case 2:
-        case 3:
-        case 4:
-            COPYWORD(&buff[2], &cmd->m_register);
+        case 1: /* Read Coils */
+        case 2: /* Read Input Contacts */
+        case 3: /* Read Holding Registers */
+        case 4: /* Read Analog Inputs */
             COPYWORD(&buff[4], &cmd->length);
-            length = 6;
-            break;
-        case 5:
-            temp = *cmd->data;
-            if(cmd->enable == MB_CONTINUOUS || (temp != cmd->lastcrc) || !cmd->firstrun ) {
-                COPYWORD(&buff[2], &cmd->m_register);
-                if(temp) buff[4] = 0xff;
-                else     buff[4] = 0x00;
-                buff[5] = 0x00;
-                cmd->firstrun = 1;
-                cmd->lastcrc = temp;
-                length = 6;
-                break;
-            } else {
-                return 0;
-            }
-            break;
-        case 6:
-            temp = *cmd->data;
-            /* If the command is contiunous go, if conditional then
-             check the last checksum against the current datatable[] */
-            if(cmd->enable == MB_CONTINUOUS || (temp != cmd->lastcrc)) {
-                COPYWORD(&buff[2], &cmd->m_register);
-                COPYWORD(&buff[4], &temp);
-                cmd->lastcrc = temp; /* Since it's a single just store the word */
-                length = 6;
-                break;
-            } else {
-                return 0;
-            }
+            return 6;
+        case 5: /* Write single coil */
+            buff[4] = *cmd->data ? 0xff : 0x00;
+            buff[5] = 0x00;
+            return 6;
+        case 6: /* Write single Holding Register */
+            COPYWORD(&buff[4], cmd->data);
+            return 6;
         case 15: /* Write multiple output coils */
-            if(cmd->enable != MB_CONTINUOUS) {
-                /* If we have more than one word then do a crc otherwise just copy the data */
-                if(cmd->length > 16) {
-                    crc = crc16(cmd->data, cmd->datasize);
-                } else if(cmd->length > 8) {
-                    crc = *(uint16_t *)cmd->data;
-                } else {
-                    crc = *cmd->data;
-                }
+            COPYWORD(&buff[4], &cmd->length);
+            bytes = (cmd->length-1)/8 + 1;
+            buff[6] = bytes;
+            for(n = 0; n < bytes; n++) {
+                buff[7+n] = cmd->data[n];
             }
-            if(cmd->enable == MB_CONTINUOUS || (crc != cmd->lastcrc)) {
-                COPYWORD(&buff[2], &cmd->m_register);
-                COPYWORD(&buff[4], &cmd->length);
-                buff[6] = (cmd->length-1)/8 + 1;
-                printf("Bytes = %d\n", buff[7]);
-                for(int n = 0; n < buff[7]; n++) {
-                    buff[7+n] = cmd->data[n];
-                }
-                cmd->lastcrc = crc; /* Store for next time */
-                length = 7 + buff[7];
-                break;
-            } else {
-                return 0;
+            if(cmd->length % 8) { /* The unused bits should be zero */
+                buff[6+bytes] &= 0xff >> (8 - cmd->length % 8);
             }
+            return 7 + bytes;
         case 16: /* Write multiple holding registers */
-            if(cmd->enable != MB_CONTINUOUS) {
-                crc = crc16(cmd->data, cmd->datasize);
-            }
-            if(cmd->enable == MB_CONTINUOUS || (crc != cmd->lastcrc)) {
-                COPYWORD(&buff[2], &cmd->m_register);
-                COPYWORD(&buff[4], &cmd->length);
-                buff[6] = cmd->length*2;
-                for(int n = 0; n < cmd->length; n++) {
-                    COPYWORD(&buff[7+n*2], &cmd->data[n*2]);
-                }
-                cmd->lastcrc = crc; /* Store for next time */
-                length = 7 + cmd->length*2;
-                break;
-            } else {
-                return 0;
+            COPYWORD(&buff[4], &cmd->length);
+            buff[6] = cmd->length*2;
+            for(n = 0; n < cmd->length; n++) {
+                COPYWORD(&buff[7+n*2], &cmd->data[n*2]);
             }
+            return 7 + cmd->length*2;
         /* TODO: Add the rest of the function codes */
         default:
             break;
     }
+    return MB_ERR_FUNCTION;
+}
+
+/* This function formulates and sends the Modbus RTU master request */
+static int
+sendRTUrequest(mb_port *mp, mb_cmd *cmd)
+{
+    uint8_t buff[MB_FRAME_LEN];
+    uint16_t crc;
+    int length;
+
+    length = _build_request(cmd, buff);
+    if(length < 0) return length;
     crc = crc16(buff, length);
     COPYWORD(&buff[length], &crc);
+    length += 2;
     /* Send Request */
     cmd->requests++; /* Increment the request counter */
     tcflush(mp->fd, TCIOFLUSH);
     /* Send the buffer to the callback routine. */
     if(mp->out_callback) {
-        mp->out_callback(mp, buff, length + 2);
+        mp->out_callback(mp, buff, length);
     }
 
-    return write(mp->fd, buff, length + 2);
+    if(write(mp->fd, buff, length) != length) return MB_ERR_PORTFAIL;
+    return length;
 }
 
 /*
@@ -351,13 +341,14 @@ sendRTUrequest(mb_port *mp, mb_cmd *cmd)
  * have been received and the function exits.
 
  * Returns 0 on timeout
- * Returns -1 on CRC fail
- * Returns the length of the message on success
+ * Returns -1 on CRC fail or if we receive more than any message could be
+ * Returns MB_ERR_RECV_FAIL if the port has failed
+ * Returns the length of the message, without the checksum, on success
  */
 static int
 getRTUresponse(uint8_t *buff, mb_port *mp)
 {
-    unsigned int buffptr = 0;
+    int buffptr = 0;
     struct timeval oldtime, thistime;
     int result;
 
@@ -365,9 +356,12 @@ getRTUresponse(uint8_t *buff, mb_port *mp)
 
     while(1) {
         usleep(mp->frame * 1000);
-        result = read(mp->fd, &buff[buffptr], MB_FRAME_LEN);
+        result = read(mp->fd, &buff[buffptr], MB_FRAME_LEN - buffptr);
         if(result > 0) { /* Get some data */
-            buffptr += result; // TODO: WE NEED A BOUNDS CHECK HERE.  Seg Fault Commin'
+            buffptr += result;
+            if(buffptr >= MB_FRAME_LEN) return -1; /* This is just noise */
+        } else if(result < 0 && errno != EAGAIN && errno != EINTR) {
+            return MB_ERR_RECV_FAIL;
         } else { /* Message is finished, good or bad */
             if(buffptr > 0) { /* Is there any data in buffer? */
 
@@ -378,7 +372,7 @@ getRTUresponse(uint8_t *buff, mb_port *mp)
                 result = crc16check(buff, buffptr);
 
                 if(!result) return -1;
-                else return buffptr;
+                else return buffptr - 2;
 
             } else { /* No data in the buffer */
                 gettimeofday(&thistime,NULL);
@@ -404,278 +398,302 @@ getASCIIresponse(uint8_t *buff, mb_port *mp)
     return 0;
 }
 
-static uint16_t _req_tid;
-
 /* This function formulates and sends the Modbus TCP client request */
 static int
 sendTCPrequest(mb_port *mp, mb_cmd *cmd)
 {
     uint8_t buff[MB_FRAME_LEN];
-    uint16_t crc, temp, length;
-
-    /* build the request message */
-    /* MBAP Header minus the length.  We'll set it later */
-    buff[0] = _req_tid>>8;  /* Transaction ID */
-    buff[1] = _req_tid++;   /* Transaction ID */
+    uint16_t len;
+    int length;
+
+    length = _build_request(cmd, &buff[6]);
+    if(length < 0) return length;
+    /* The MBAP Header. */
+    mp->tid++;
+    COPYWORD(&buff[0], &mp->tid);  /* Transaction ID */
     buff[2] = 0x00;  /* Protocol ID */
     buff[3] = 0x00;  /* Protocol ID */
-    /* Modbus RTU PDU */
-    buff[6] = cmd->node;     /* Unit ID */
-    buff[7] = cmd->function; /* Function Code */
-
-    switch (cmd->function) {
-        case 1: /* Read Coils */
-        case 2: /* Read Input Contacts */
-        case 3: /* Read Holding Registers */
-        case 4: /* Read Analog Inputs */
-            COPYWORD(&buff[8], &cmd->m_register);
-            COPYWORD(&buff[10], &cmd->length);
-            length = 6;
-            break;
-        case 5: /* Write single coil */
-            temp = *cmd->data;
-            if(cmd->enable == MB_CONTINUOUS || (temp != cmd->lastcrc) || !cmd->firstrun ) {
-                COPYWORD(&buff[8], &cmd->m_register);
-                if(temp) buff[10] = 0xff;
-                else     buff[10] = 0x00;
-                buff[5] = 0x00;
-                cmd->firstrun = 1;
-                cmd->lastcrc = temp;
-                length = 6;
-                break;
-            } else {
-                return 0;
-            }
-            break;
-        case 6: /* Write single Holding Register */
-            temp = *cmd->data;
-            /* If the command is continuous go, if conditional then
-             check the last checksum against the current datatable[] */
-            if(cmd->enable == MB_CONTINUOUS || (temp != cmd->lastcrc)) {
-                COPYWORD(&buff[8], &cmd->m_register);
-                COPYWORD(&buff[10], cmd->data);
-                cmd->lastcrc = temp; /* Since it's a single just store the word */
-                length = 6;
-                break;
-            } else {
-                return 0;
-            }
-        case 15: /* Write multiple output coils */
-            if(cmd->enable != MB_CONTINUOUS) {
-                /* If we have more than one word then do a crc otherwise just copy the data */
-                if(cmd->length > 16) {
-                    crc = crc16(cmd->data, cmd->datasize);
-                } else if(cmd->length > 8) {
-                    crc = *(uint16_t *)cmd->data;
-                } else {
-                    crc = *cmd->data;
-                }
-            }
-            if(cmd->enable == MB_CONTINUOUS || (crc != cmd->lastcrc)) {
-                COPYWORD(&buff[8], &cmd->m_register);
-                COPYWORD(&buff[10], &cmd->length);
-                buff[12] = (cmd->length-1)/8 + 1;
-                printf("Bytes = %d\n", buff[12]);
-                for(int n = 0; n < buff[12]; n++) {
-                    buff[13+n] = cmd->data[n];
-                }
-                cmd->lastcrc = crc; /* Store for next time */
-                length = 7 + buff[12];
-                break;
-            } else {
-                return 0;
-            }
-        case 16: /* Write multiple holding registers */
-            if(cmd->enable != MB_CONTINUOUS) {
-                crc = crc16(cmd->data, cmd->datasize);
-            }
-            if(cmd->enable == MB_CONTINUOUS || (crc != cmd->lastcrc)) {
-                COPYWORD(&buff[8], &cmd->m_register);
-                COPYWORD(&buff[10], &cmd->length);
-                buff[12] = cmd->length*2;
-                for(int n = 0; n < cmd->length; n++) {
-                    COPYWORD(&buff[13+n*2], &cmd->data[n*2]);
-                }
-                cmd->lastcrc = crc; /* Store for next time */
-                length = 7 + cmd->length*2;
-                break;
-            } else {
-                return 0;
-            }
-        /* TODO: Add the rest of the function codes */
-        default:
-            break;
-    }
-    /* Go back and put the length in the MBAP Header */
-    COPYWORD(&buff[4], &length);
+    len = length;
+    COPYWORD(&buff[4], &len);
+    length += 6;
     /* Send Request */
     cmd->requests++; /* Increment the request counter */
-    tcflush(mp->fd, TCIOFLUSH);
     /* Send the buffer to the callback routine. */
     if(mp->out_callback) {
-        mp->out_callback(mp, buff, length + 6);
+        mp->out_callback(mp, buff, length);
     }
 
-    return write(mp->fd, buff, length + 6);
+    if(write(mp->fd, buff, length) != length) return MB_ERR_PORTFAIL;
+    return length;
 }
 
 /*
- * This function immediately tries to read data from the file handle.
+ * This function reads from the connection until we have the whole response to
+ * the last request that was sent.  The responses to the requests that we
+ * gave up on earlier are ignored.
 
  * Returns 0 on timeout
+ * Returns MB_ERR_RECV_FAIL if the connection has failed or if what we get on
+ * it makes no sense, in that case the connection should be closed
  * Returns the length of the message on success
  */
 static int
 getTCPresponse(uint8_t *buff, mb_port *mp)
 {
     uint8_t tempbuff[MB_FRAME_LEN];
-    struct timeval timeout;
-    int result;
-    fd_set readfs, errfs;
-
-
-    timeout.tv_usec = (mp->timeout % 1000) * 1000;
-    timeout.tv_sec = mp->timeout / 1000;
-    FD_ZERO(&readfs);
-    FD_SET(mp->fd, &readfs);
-    FD_ZERO(&errfs);
-    FD_SET(mp->fd, &errfs);
-    result = select(mp->fd+1, &readfs, NULL, &errfs, &timeout);
-    if(FD_ISSET(mp->fd, &readfs)) {
-        /* TODO Can we really assume that we'll get the whole thing in one read() */
-        result = read(mp->fd, tempbuff, MB_BUFF_SIZE);
-    }
-    if(result > 0) { /* Is there any data in buffer? */
+    struct timespec start, now;
+    struct pollfd pfd;
+    uint16_t tid, length;
+    int result, elapsed, size, want, have = 0;
+
+    clock_gettime(CLOCK_MONOTONIC, &start);
+    while(1) {
+        clock_gettime(CLOCK_MONOTONIC, &now);
+        elapsed = (now.tv_sec - start.tv_sec) * 1000 + (now.tv_nsec - start.tv_nsec) / 1000000;
+        pfd.fd = mp->fd;
+        pfd.events = POLLIN;
+        result = 0;
+        if(elapsed < mp->timeout) {
+            result = poll(&pfd, 1, mp->timeout - elapsed);
+        }
+        if(result == 0) { /* Time is up.  If we have a part of a message then we would */
+            return have ? MB_ERR_RECV_FAIL : 0; /* be out of step with the stream */
+        } else if(result < 0) {
+            if(errno == EINTR) continue;
+            return MB_ERR_RECV_FAIL;
+        }
+        /* We only read up to the end of the message so that there is nothing left
+         * in the buffer when we have it.  With UDP we get the whole thing or nothing */
+        size = 6;
+        if(have >= 6) {
+            COPYWORD(&length, &tempbuff[4]);
+            size += length;
+        }
+        want = mp->socket == UDP_SOCK ? MB_FRAME_LEN : size - have;
+        result = read(mp->fd, &tempbuff[have], want);
+        if(result < 0) {
+            if(errno == EINTR || errno == EAGAIN) continue;
+            return MB_ERR_RECV_FAIL;
+        } else if(result == 0) { /* End of file */
+            return MB_ERR_RECV_FAIL;
+        }
+        have += result;
+        if(have < 6) {
+            if(mp->socket == UDP_SOCK) have = 0;
+            continue;
+        }
+        COPYWORD(&length, &tempbuff[4]);
+        if(tempbuff[2] != 0x00 || tempbuff[3] != 0x00 || length < 2 || length > MB_MAX_MSG_SIZE) {
+            return MB_ERR_RECV_FAIL;
+        }
+        if(have < length + 6) {
+            if(mp->socket == UDP_SOCK) have = 0;
+            continue;
+        }
         if(mp->in_callback) {
-            mp->in_callback(mp, tempbuff, result);
+            mp->in_callback(mp, tempbuff, have);
         }
-        /* We have to convert the TCP message to it's RTU equivalent,
-         * because that is what the calling function is expecting. */
-        result -= 6;
-        memcpy(buff, &tempbuff[6], result);
+        COPYWORD(&tid, &tempbuff[0]);
+        if(tid == mp->tid) {
+            /* We have to convert the TCP message to it's RTU equivalent,
+             * because that is what the calling function is expecting. */
+            memcpy(buff, &tempbuff[6], length);
+            return length;
+        }
+        have = 0; /* It's not for us */
     }
-    return result;
 }
 
 
-
-
 /*!
  * This function takes the message buffer and the current command and
- * determines what to do with the message.  It may write data to the
- * datatable or just return if the message is an acknowledge of a write.
+ * determines what to do with the message.  For the commands that read the
+ * data is put into the command's data buffer.  Otherwise it makes sure that
+ * the message is the acknowledge of the write.
  * This function is protocol indifferent so the checksums should be
  * checked before getting here.  This function assumes that *buff looks
- * like an RTU message so the ASCII & TCP response functions should translate
- * the their responses into RTUish messages
+ * like an RTU message, without the checksum, so the ASCII & TCP response functions
+ * should translate the their responses into RTUish messages.
+ *
+ * Returns 0 if this is the response that we have been waiting for or a positive
+ * error.
  */
-/* TODO: There is all kinds of buffer overflow potential here.  It should all be checked */
 static int
-handleresponse(uint8_t *buff, mb_cmd *cmd)
+handleresponse(uint8_t *buff, int length, mb_cmd *cmd)
 {
-    int n;
+    int n, bytes;
+    uint16_t temp;
 
     cmd->responses++;
-    if(buff[1] >= 0x80)
-        return buff[2];
+    if(length < 3) /* There is no shorter message than an exception */
+        return ME_BAD_VALUE;
     if(buff[0] != cmd->node)
         return ME_WRONG_DEVICE;
+    if(buff[1] == (cmd->function | ME_EXCEPTION))
+        return buff[2] ? buff[2] : ME_DEVICE_FAIL;
     if(buff[1] != cmd->function)
         return ME_WRONG_FUNCTION;
-    /* If we get this far the message should be good */
+
     switch (cmd->function) {
         case 1:
         case 2:
-            memcpy(cmd->data, &buff[3], buff[2]);
+            bytes = (cmd->length - 1)/8 + 1;
+            if(buff[2] != bytes || length < bytes + 3)
+                return ME_BAD_VALUE;
+            memcpy(cmd->data, &buff[3], bytes);
+            if(cmd->length % 8) { /* There is no data in the rest of the bits */
+                cmd->data[bytes - 1] &= 0xff >> (8 - cmd->length % 8);
+            }
             break;
         case 3:
         case 4:
-            /* TODO: There may be times when we get more data than cmd->length but how to deal with that? */
-            for(n = 0; n < (buff[2] / 2); n++) {
-                COPYWORD(&((uint16_t *)cmd->data)[n], &buff[(n * 2) + 3]);
+            bytes = cmd->length * 2;
+            if(buff[2] != bytes || length < bytes + 3)
+                return ME_BAD_VALUE;
+            for(n = 0; n < cmd->length; n++) {
+                COPYWORD(&cmd->data[n * 2], &buff[(n * 2) + 3]);
             }
             break;
         case 5:
         case 6:
         case 15:
         case 16:
+            if(length < 6)
+                return ME_BAD_VALUE;
+            COPYWORD(&temp, &buff[2]);
+            if(temp != cmd->m_register)
+                return ME_BAD_ADDRESS;
+            COPYWORD(&temp, &buff[4]);
+            if((cmd->function == 15 || cmd->function == 16) && temp != cmd->length)
+                return ME_BAD_VALUE;
             break;
         default:
-            break;
+            return ME_WRONG_FUNCTION;
     }
     return 0;
 }
 
-/* This function is called before a write command request is sent.  It's purpose
- * is to read the data from the tagserver and put it in the command buffer.  First
- * it checks to see if we have already retrieved our handle from the
- * tag server.  If not then we attempt to retrieve it.  Then we make sure that
- * the sizes of the tag and the command buffer are the same and adjust if necessary.
- * If the handles has been retrieved then we simply read the data from the
- * tagserver and put it in the command data buffer so that it can be sent. */
+/* Retrieves the handle of the command's data tag and makes sure that we don't exchange
+ * more data with the tag than the Modbus request has.  If the tag is smaller it's no
+ * big deal but if the command data size is smaller then we'll cut the handle down. */
 static int
-_get_write_data(mb_cmd *mc) {
-    int result;
+_get_data_handle(mb_cmd *mc, tag_handle *h)
+{
+    int result, bits, size;
 
     if(mc->data_h.index == 0) {
+        if(mc->data_tag == NULL) return ERR_NOTFOUND;
         result = dax_tag_handle(ds, &mc->data_h, mc->data_tag, mc->tagcount);
-        if(result) return result;
-        /* We need to check if the tag size and the data buffer size in the modbus command
-         * are the same.  If not then if the tag is smaller it's no big deal but if the command
-         * data size is smaller then we'll truncate the size in the tag handle. */
+        if(result) {
+            bzero(&mc->data_h, sizeof(tag_handle));
+            return result;
+        }
         if(mc->data_h.size != mc->datasize) {
             dax_log(DAX_LOG_ERROR, "Tag size and Modbus request size are different.  Data may be truncated");
-            if(mc->datasize < mc->data_h.size) mc->data_h.size = mc->datasize;
         }
     }
-    /* If we get here we assume that we now have a valid tag handle */
-    return dax_read_tag(ds, mc->data_h, mc->data);
+    *h = mc->data_h;
+    if(h->type == DAX_BOOL) {
+        if(mc->function == 1 || mc->function == 2 || mc->function == 15) bits = mc->length;
+        else if(mc->function == 5)                                       bits = 1;
+        else                                                             bits = mc->datasize * 8;
+        if(h->count > bits) {
+            h->count = bits;
+            h->size = (h->bit + bits - 1) / 8 + 1;
+        }
+    } else if(h->size > mc->datasize) {
+        size = IS_CUSTOM(h->type) ? 0 : TYPESIZE(h->type) / 8;
+        if(size > 0 && mc->datasize % size == 0) {
+            h->count = mc->datasize / size;
+        } else { /* We'd have to cut one of the items in half */
+            h->type = DAX_BYTE;
+            h->count = mc->datasize;
+        }
+        h->size = mc->datasize;
+    }
+    return 0;
+}
+
+/* The tag may have been deleted, so we forget the handle so that we'll look for
+ * the tag again the next time */
+static void
+_forget_data_handle(mb_cmd *mc)
+{
+    if(mc->data_tag != NULL) {
+        bzero(&mc->data_h, sizeof(tag_handle));
+    }
+}
+
+/* This function is called before a write command request is sent.  It's purpose
+ * is to read the data from the tagserver and put it in the command data buffer.  If
+ * the tag is smaller than the data of the request the rest of the data will be zero */
+static int
+_get_write_data(mb_cmd *mc) {
+    int result;
+    tag_handle h;
+    uint8_t data[MB_FRAME_LEN];
+
+    result = _get_data_handle(mc, &h);
+    if(result) return result;
+    bzero(data, sizeof(data));
+    result = dax_read_tag(ds, h, data);
+    if(result) {
+        _forget_data_handle(mc);
+        return result;
+    }
+    memcpy(mc->data, data, mc->datasize);
+    return 0;
 }
 
 /* This function is called after a command response has been received.  It's purpose
- * is to put the data into the tagserver.  It first checks to see if we have already
- * retrieved our handle from the tag server.  If not then we attempt to retrieve it.
- * Then we make sure that the sizes of the tag and the command buffer are the same
- * and adjust if necessary. If the handles has been retrieved then we simply write
- * the data from the command data buffer to the tagserver. */
+ * is to write the data from the command data buffer to the tagserver. */
 static int
 _send_read_data(mb_cmd *mc) {
     int result;
+    tag_handle h;
+    uint8_t data[MB_FRAME_LEN];
 
-    if(mc->data_h.index == 0) {
-        result = dax_tag_handle(ds, &mc->data_h, mc->data_tag, mc->tagcount);
-        if(result) return result;
-        /* We need to check if the tag size and the data buffer size in the modbus command
-         * are the same.  If not then if the tag is smaller it's no big deal but if the command
-         * data size is smaller then we'll truncate the size in the tag handle. */
-        if(mc->data_h.size != mc->datasize) {
-            dax_log(DAX_LOG_ERROR, "Tag size and Modbus request size are different.  Data will be truncated");
-            if(mc->datasize < mc->data_h.size) mc->data_h.size = mc->datasize;
-        }
+    result = _get_data_handle(mc, &h);
+    if(result) return result;
+    bzero(data, sizeof(data));
+    memcpy(data, mc->data, mc->datasize);
+    result = dax_write_tag(ds, h, data);
+    if(result) {
+        _forget_data_handle(mc);
     }
-    /* If we get here we assume that we now have a valid tag handle */
-    return dax_write_tag(ds, mc->data_h, mc->data);
+    return result;
 }
 
 
-/*!
- * External function to send a Modbus commaond (mc) to port (mp).  The function
- * sets some function pointers to the functions that handle the port protocol and
- * then uses those functions generically.  The retry loop tries the command for the
- * configured number of times and if successful returns 0.  If not, an error code
- * is returned. mb_buff should be at least MB_FRAME_LEN in length
- */
+/* Makes sure that mp->fd is something that we can send the command to */
+static int
+_get_port_fd(mb_port *mp, mb_cmd *mc)
+{
+    if(mp->devtype == MB_NETWORK) {
+        /* We get our fd from the pool for TCP connections and put it in the
+         * port fd.  This just keeps it consistent with the serial port functions
+         * so that we don't have to pass the fd to the send/get functions */
+        mp->fd = mb_get_connection(mp, mc->ip_address, mc->port);
+        if(mp->fd < 0) return MB_ERR_OPEN;
+    } else if(mp->fd <= 0) {
+        if(mp->inhibit || mb_open_port(mp)) {
+            mp->fd = 0;
+            return MB_ERR_OPEN;
+        }
+    }
+    return 0;
+}
 
-int
-mb_send_command(mb_port *mp, mb_cmd *mc)
+/* This is the retry loop.  The send_lock should be locked here */
+static int
+_send_command(mb_port *mp, mb_cmd *mc)
 {
     uint8_t buff[MB_FRAME_LEN]; /* Modbus Frame buffer */
     int try = 1;
     int result, msglen;
-    static int (*sendrequest)(struct mb_port *, struct mb_cmd *) = NULL;
-    static int (*getresponse)(uint8_t *,struct mb_port *) = NULL;
+    int (*sendrequest)(struct mb_port *, struct mb_cmd *) = NULL;
+    int (*getresponse)(uint8_t *,struct mb_port *) = NULL;
 
-    if(!mc->enable) return 0; /* If we are not enabled we don't send */
   /* This sets up the function pointers so we don't have to constantly check
    *  which protocol we are using for communication.  From this point on the
    *  code is generic for RTU or ASCII */
@@ -691,38 +709,32 @@ mb_send_command(mb_port *mp, mb_cmd *mc)
     } else {
         return -1;
     }
-    pthread_mutex_lock(&mp->send_lock);
-    if(mp->protocol == MB_TCP) {
-        /* We get our fd from the pool for TCP connections and put it in the
-         * port fd.  This just keeps it consistent with the serial port functions
-         * so that we don't have to pass the fd to the send/get functions */
-        mp->fd = mb_get_connection(mp, mc->ip_address, mc->port);
-        if(mp->fd < 0) {
-            pthread_mutex_unlock(&mp->send_lock);
-            return MB_ERR_OPEN;
-        }
+    if(mc->data == NULL) { /* The command was never properly set up */
+        return MB_ERR_BAD_ARG;
     }
     /* Retrieve the data from the tag server */
     if(mb_is_write_cmd(mc)) {
         result = _get_write_data(mc);
+        if(result) {
+            dax_log(DAX_LOG_ERROR, "Unable to read the data for a command on port %s", mp->name);
+            return MB_ERR_GENERIC;
+        }
     }
     do { /* retry loop */
+        result = _get_port_fd(mp, mc);
+        if(result) return result;
+
         result = sendrequest(mp, mc);
         if(result > 0) {
             msglen = getresponse(buff, mp);
-        } else if(result == 0) {
-            /* Should be 0 when a conditional command simply doesn't run */
-            if(!mp->scanning && !mp->persist) close(mp->fd);
-            pthread_mutex_unlock(&mp->send_lock);
-            return result;
+        } else if(result == MB_ERR_PORTFAIL) { /* See if we can do any better with a new connection */
+            msglen = MB_ERR_RECV_FAIL;
         } else {
-            if(!mp->scanning && !mp->persist) close(mp->fd);
-            pthread_mutex_unlock(&mp->send_lock);
-            return -1;
+            return result;
         }
 
         if(msglen > 0) {
-            result = handleresponse(buff, mc); /* Returns 0 on success + on failure */
+            result = handleresponse(buff, msglen, mc); /* Returns 0 on success + on failure */
             if(result > 0) {
                 mc->exceptions++;
                 mc->lasterror = result | ME_EXCEPTION;
@@ -731,27 +743,49 @@ mb_send_command(mb_port *mp, mb_cmd *mc)
                 /* Send the data to the tag server */
                 if(mb_is_read_cmd(mc)) {
                     result = _send_read_data(mc);
+                    if(result) {
+                        dax_log(DAX_LOG_ERROR, "Unable to write the data of a command on port %s", mp->name);
+                    }
                 }
             }
-            if(!mp->scanning && !mp->persist) close(mp->fd);
-            pthread_mutex_unlock(&mp->send_lock);
             return msglen; /* We got some kind of message so no sense in retrying */
         } else if(msglen == 0) {
             mc->timeouts++;
             mc->lasterror = ME_TIMEOUT;
         } else {
-            /* Checksum failed in response */
+            /* Checksum failed in response or we have lost the connection */
             mc->crcerrors++;
             mc->lasterror = ME_CHECKSUM;
+            if(msglen == MB_ERR_RECV_FAIL) {
+                mb_drop_connection(mp);
+            }
         }
     } while(try++ <= mp->retries);
     /* After all the retries get out with error */
-    /* TODO: Should set error code?? */
-    if(!mp->scanning && !mp->persist) close(mp->fd);
-    pthread_mutex_unlock(&mp->send_lock);
     return 0 - mc->lasterror;
 }
 
+/*!
+ * External function to send a Modbus commaond (mc) to port (mp).  The function
+ * sets some function pointers to the functions that handle the port protocol and
+ * then uses those functions generically.  The retry loop tries the command for the
+ * configured number of times and if successful returns the length of the response.
+ * If not, a negative error code is returned.
+ */
+int
+mb_send_command(mb_port *mp, mb_cmd *mc)
+{
+    int result;
+
+    if(!mc->enable) return 0; /* If we are not enabled we don't send */
+
+    pthread_mutex_lock(&mp->send_lock);
+    result = _send_command(mp, mc);
+    if(!mp->scanning && !mp->persist) mb_close_port(mp);
+    pthread_mutex_unlock(&mp->send_lock);
+    return result;
+}
+
 static int
 _create_exception(unsigned char *buff, uint16_t exception)
 {
diff --git a/src/modules/modbus/modbus.h b/src/modules/modbus/modbus.h
index a13d75f..c0ce153 100644
--- a/src/modules/modbus/modbus.h
+++ b/src/modules/modbus/modbus.h
@@ -277,7 +277,10 @@ typedef struct mb_port {
     uint8_t scanning;             /* A flag to tell us if we are currently scanning the port */
 
     pthread_mutex_t send_lock;
+    uint16_t tid;                 /* Transaction id of the last TCP request */
     tag_handle command_h;         /* Handle to command tag */
+    tag_handle response_h;        /* Handle to the response member of the command tag */
+    tag_handle send_h;            /* Handle to the send member of the command tag */
     mb_cmd *cmd;                  /* Pointer to the asynchronous command structure */
 
     /* These are callback function pointers for the port message data */
@@ -310,6 +313,7 @@ int mb_set_maxfailures(mb_port *port, int maxfailures, int inhibit);
 
 int mb_open_port(mb_port *port);
 int mb_close_port(mb_port *port);
+void mb_drop_connection(mb_port *port);
 int mb_get_connection(mb_port *mp, struct in_addr address, uint16_t port);
 /* Set callback functions that are called any time data is read or written over the port */
 void mb_set_msgout_callback(mb_port *, void (*outfunc)(mb_port *,uint8_t *,unsigned int));
-- 
2.43.0


From c9d83dc06bdedd841f5f7d9326898229444b351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:51 +0000
Subject: [PATCH 39/64] fix: Modbus master asynchronous command tag, event
 enabling and privilege order

---
 src/modules/modbus/modmain.c | 165 ++++++++++++++++++++---------------
 1 file changed, 93 insertions(+), 72 deletions(-)

diff --git a/src/modules/modbus/modmain.c b/src/modules/modbus/modmain.c
index 8ca98fb..29828d3 100644
--- a/src/modules/modbus/modmain.c
+++ b/src/modules/modbus/modmain.c
@@ -80,7 +80,10 @@ _enable_callback(dax_state *_ds, void *ud) {
 
     // TODO: This isn't working for some reason
     //dax_event_get_data(_ds, bits, enable->h.size);
-    dax_read_tag(ds, enable->h, bits);
+    if(dax_read_tag(ds, enable->h, bits)) {
+        dax_log(DAX_LOG_ERROR, "Unable to read the enable tag for port %s", enable->port->name);
+        return;
+    }
     n=0;
     mc = enable->port->commands;
     while(mc != NULL) {
@@ -103,25 +106,40 @@ _enable_callback(dax_state *_ds, void *ud) {
 static void
 _async_command_callback(dax_state *_ds, void *ud) {
     mb_port *port = (mb_port *)ud;
+    mb_cmd *cmd = port->cmd;
     uint8_t buff[port->command_h.size];
-    int result;
+    uint8_t bit = 0;
+    uint16_t reg, length;
+    dax_int response;
+    int result, max;
 
     result = dax_read_tag(_ds, port->command_h, buff);
     if(result) {
         dax_log(DAX_LOG_ERROR, "Unable to read commadn tag for port %s", port->name);
-    } else {
-        port->cmd->ip_address.s_addr = (buff[6]<<24) + (buff[5]<<16) + (buff[4]<<8) + buff[3];
-        port->cmd->port = *(dax_uint *)&buff[7];
-        port->cmd->node = buff[9];
-        port->cmd->function = buff[10];
-        port->cmd->m_register = *(dax_uint *)&buff[11];
-        port->cmd->length = *(dax_uint *)&buff[13];
-        result = mb_send_command(port, port->cmd);
-        buff[0] = 0;
-        *(dax_int *)&buff[1] = port->cmd->lasterror;
-        dax_write_tag(_ds, port->command_h, buff);
+        return;
     }
-
+    memcpy(&cmd->ip_address.s_addr, &buff[3], 4);
+    memcpy(&cmd->port, &buff[7], 2);
+    memcpy(&reg, &buff[11], 2);
+    memcpy(&length, &buff[13], 2);
+
+    cmd->lasterror = 0;
+    result = mb_set_command(cmd, buff[9], buff[10], reg, length);
+    if(result == 0) {
+        /* The command's data has to fit in the tag */
+        max = (cmd->function == 3 || cmd->function == 4 || cmd->function == 16) ?
+              MOD_DATA_REG_COUNT : MOD_DATA_REG_COUNT * 16;
+        if(cmd->function != 5 && cmd->function != 6 && length > max) {
+            result = MB_ERR_BAD_ARG;
+        } else {
+            result = mb_send_command(port, cmd);
+        }
+    }
+    if(cmd->lasterror)   response = cmd->lasterror;
+    else if(result < 0)  response = result; /* We never even got to send it */
+    else                 response = 0;
+    dax_write_tag(_ds, port->response_h, &response);
+    dax_write_tag(_ds, port->send_h, &bit);
 }
 
 static void
@@ -133,13 +151,12 @@ static inline int
 _add_async_command_tag(mb_port *port) {
     int result;
     char ctag[256];
-    static int type_added;
+    static tag_type type;
     dax_cdt *cdt;
-    tag_type type;
-    tag_handle h;
 
-    if(type_added == 0) { /* First time we're called we add the CDT */
+    if(type == 0) { /* First time we're called we add the CDT */
         cdt = dax_cdt_new("mb_command", &result);
+        if(cdt == NULL) return result;
         result = dax_cdt_member(ds, cdt, "send", DAX_BOOL, 1);
         result = dax_cdt_member(ds, cdt, "response", DAX_INT, 1);
         result = dax_cdt_member(ds, cdt, "ipaddress", DAX_BYTE, 4);
@@ -151,34 +168,35 @@ _add_async_command_tag(mb_port *port) {
         result = dax_cdt_member(ds, cdt, "data", DAX_UINT, MOD_DATA_REG_COUNT);
 
         result = dax_cdt_create(ds,cdt, &type);
-        type_added = 1;
+        if(result) {
+            type = 0;
+            return result;
+        }
     }
-    /* Add our command tag and store the handle in the port */
+    port->cmd = mb_new_cmd(NULL); /* Allocate a command for the port */
+    if(port->cmd == NULL) {
+        dax_log(DAX_LOG_ERROR, "Unable to allocate command to send");
+        return ERR_ALLOC;
+    }
+    /* Add our command tag and store the handles in the port */
     snprintf(ctag, 256, "%s_cmd", port->name);
     result = dax_tag_add(ds, &port->command_h, ctag, type, 1, 0x00);
     if(result) {
         dax_log(DAX_LOG_ERROR, "Unable to add tag %s", ctag);
-    } else {
-        port->command_h.size -= MOD_DATA_REG_COUNT*2; /* shrink handle to not include the data */
-        port->cmd = mb_new_cmd(NULL); /* Allocate a command for the port */
-        if(port->cmd == NULL) {
-            dax_log(DAX_LOG_ERROR, "Unable to allocate command to send");
-        } else { /* Put a handle to the data area in our new command so mb_send_command() will work */
-            snprintf(ctag, 256, "%s_cmd.data", port->name);
-            dax_tag_handle(ds, &port->cmd->data_h, ctag, MOD_DATA_REG_COUNT);
-            /* Allocate the data area to hold the whole data part of the command */
-            port->cmd->data = malloc(port->cmd->data_h.size);
-            if(port->cmd->data == NULL) {
-                dax_log(DAX_LOG_ERROR, "Unable to allocate data for command");
-                mb_destroy_cmd(port->cmd);
-            } else { /* Create a set event for the .send member */
-                snprintf(ctag, 256, "%s_cmd.send", port->name);
-                dax_tag_handle(ds, &h, ctag, 1);
-                result = dax_event_add(ds, &h, EVENT_SET, NULL, NULL, _async_command_callback, port, NULL);
-            }
-        }
+        return result;
     }
-    return 0;
+    snprintf(ctag, 256, "%s_cmd.response", port->name);
+    result = dax_tag_handle(ds, &port->response_h, ctag, 1);
+    if(result) return result;
+    /* Put a handle to the data area in our new command so mb_send_command() will work */
+    snprintf(ctag, 256, "%s_cmd.data", port->name);
+    result = dax_tag_handle(ds, &port->cmd->data_h, ctag, MOD_DATA_REG_COUNT);
+    if(result) return result;
+    /* Create a set event for the .send member */
+    snprintf(ctag, 256, "%s_cmd.send", port->name);
+    result = dax_tag_handle(ds, &port->send_h, ctag, 1);
+    if(result) return result;
+    return dax_event_add(ds, &port->send_h, EVENT_SET, NULL, NULL, _async_command_callback, port, NULL);
 }
 
 /* Setup slave ports tags and set the read/write callbacks */
@@ -258,8 +276,9 @@ _setup_port(mb_port *port)
         result = dax_tag_add(ds, &ud->h, ctag, DAX_BOOL, size, 0x00);
         if(result) {
             dax_log(DAX_LOG_ERROR, "Unable to add connection enable tag for port %s", port->name);
+            free(ud);
         } else {
-            bits = malloc(ud->h.size);
+            bits = calloc(1, ud->h.size);
             if(bits == NULL) return ERR_ALLOC;
             mc = port->commands;
             n=0;
@@ -274,7 +293,8 @@ _setup_port(mb_port *port)
             }
             dax_write_tag(ds, ud->h, bits);
             ud->port = port;
-            dax_event_add(ds, &ud->h, EVENT_CHANGE, bits, NULL, _enable_callback, ud, _free_ud);
+            dax_event_add(ds, &ud->h, EVENT_CHANGE, NULL, NULL, _enable_callback, ud, _free_ud);
+            free(bits);
         }
         result = _add_async_command_tag(port);
         if(result) {
@@ -289,7 +309,7 @@ _setup_port(mb_port *port)
  * calling function can call it repeatedly until all of the tags have been created.*/
 static int
 _setup_master_events(mb_port *port) {
-    int result=0;
+    int result, errors=0;
     struct mb_cmd *mc;
     event_ud *ud; /* This is the userdata for change and trigger events */
 
@@ -300,17 +320,17 @@ _setup_master_events(mb_port *port) {
             if(ud == NULL) return ERR_ALLOC;
             ud->port = port;
             ud->cmd = mc;
-            result = dax_tag_handle(ds, &ud->h, mc->data_tag, mc->tagcount);
+            result = mc->data_tag ? dax_tag_handle(ds, &ud->h, mc->data_tag, mc->tagcount) : ERR_NOTFOUND;
             if(result) {
                 dax_log(DAX_LOG_ERROR, "Unable to find tag for command write event");
                 free(ud);
-                result++;
+                errors++;
             } else {
                 result = dax_event_add(ds, &ud->h, EVENT_WRITE, NULL, NULL, _change_callback, ud, _free_ud);
                 if(result) {
                     dax_log(DAX_LOG_ERROR, "Unable to add event for command write event");
                     free(ud);
-                    result++;
+                    errors++;
                 } else {
                     /* Success... Turn the mode bit off so that we don't do this again if
                      * the function is called again. We turn of the change bit if it's set
@@ -324,18 +344,18 @@ _setup_master_events(mb_port *port) {
             if(ud == NULL) return ERR_ALLOC;
             ud->port = port;
             ud->cmd = mc;
-            result = dax_tag_handle(ds, &ud->h, mc->data_tag, mc->tagcount);
+            result = mc->data_tag ? dax_tag_handle(ds, &ud->h, mc->data_tag, mc->tagcount) : ERR_NOTFOUND;
             if(result) {
                 dax_log(DAX_LOG_ERROR, "Unable to find tag for command change event");
                 free(ud);
-                result++;
+                errors++;
             } else {
                 result = dax_event_add(ds, &ud->h, EVENT_CHANGE, NULL, NULL, _change_callback, ud, _free_ud);
                 DF("dax_event_add() returned %d",result);
                 if(result) {
                     dax_log(DAX_LOG_ERROR, "Unable to add event for command change event");
                     free(ud);
-                    result++;
+                    errors++;
                 } else {
                     /* Success */
                     mc->mode &= ~(MB_ONCHANGE);
@@ -351,13 +371,13 @@ _setup_master_events(mb_port *port) {
             if(result) {
                 dax_log(DAX_LOG_ERROR, "Unable to find tag for command trigger event");
                 free(ud);
-                result++;
+                errors++;
             } else {
                 result = dax_event_add(ds, &ud->h, EVENT_SET, NULL, NULL, _trigger_callback, ud, _free_ud);
                 if(result) {
                     dax_log(DAX_LOG_ERROR, "Unable to add event for command trigger event");
                     free(ud);
-                    result++;
+                    errors++;
                 } else {
                     /* Success */
                     mc->mode &= ~(MB_TRIGGER);
@@ -366,7 +386,7 @@ _setup_master_events(mb_port *port) {
         }
         mc = mc->next;
     }
-    return result;
+    return errors;
 }
 
 static int
@@ -387,31 +407,32 @@ _demote_wait(void)
 
     user = dax_get_attr(ds, "user");
     group = dax_get_attr(ds, "group");
-    if(user != NULL) {
-        pw = getpwnam(user);
-        if(pw != NULL) {
-            dax_log(DAX_LOG_MINOR, "Setting user to '%s' %d", user, pw->pw_uid);
-            result = setuid(pw->pw_uid);
+    /* The group has to be first, once we have given up our uid we aren't allowed to */
+    if(group != NULL) {
+        gr = getgrnam(group);
+        if(gr != NULL) {
+            dax_log(DAX_LOG_MINOR, "Setting group to '%s' %d", group, gr->gr_gid);
+            result = setgid(gr->gr_gid);
             if(result) {
-                dax_log(DAX_LOG_FATAL, "Unable to set uid %d - %s", pw->pw_uid, strerror(errno));
+                dax_log(DAX_LOG_FATAL, "Unable to set gid %d - %s", gr->gr_gid, strerror(errno));
                 retval++;
             }
         } else {
-            dax_log(DAX_LOG_FATAL, "Unable to find uid for user %s", user);
+            dax_log(DAX_LOG_FATAL, "Unable to find gid for group %s", group);
             retval++;
         }
     }
-    if(group != NULL) {
-        gr = getgrnam(group);
+    if(user != NULL) {
+        pw = getpwnam(user);
         if(pw != NULL) {
-            dax_log(DAX_LOG_MINOR, "Setting group to '%s' %d", group, gr->gr_gid);
-            result = setgid(gr->gr_gid);
+            dax_log(DAX_LOG_MINOR, "Setting user to '%s' %d", user, pw->pw_uid);
+            result = setuid(pw->pw_uid);
             if(result) {
-                dax_log(DAX_LOG_FATAL, "Unable to set gid %d - %s", gr->gr_gid, strerror(errno));
+                dax_log(DAX_LOG_FATAL, "Unable to set uid %d - %s", pw->pw_uid, strerror(errno));
                 retval++;
             }
         } else {
-            dax_log(DAX_LOG_FATAL, "Unable to find uid for group %s", group);
+            dax_log(DAX_LOG_FATAL, "Unable to find uid for user %s", user);
             retval++;
         }
     }
@@ -423,7 +444,7 @@ _demote_wait(void)
 int
 main (int argc, const char * argv[]) {
     int result, n, master_errors=-1;
-    uint32_t loop_count=0;
+    time_t start_time;
     struct sigaction sa;
     pthread_attr_t attr;
 
@@ -484,13 +505,14 @@ main (int argc, const char * argv[]) {
     if(_demote_wait()) getout(-1);
     dax_set_running(ds, 1);
 
+    start_time = time(NULL);
     while(1) {
         /* for the first minute or until we have all the errors clear in the event
          * setting logic we try to setup the events in the master port */
-        if(master_errors && loop_count < 60) {
+        if(master_errors && time(NULL) - start_time < 60) {
+            master_errors = 0;
             for(n = 0; n < config.portcount; n++) {
-                master_errors = 0;
-                master_errors += _setup_master_events(config.ports[n]);
+                if(_setup_master_events(config.ports[n])) master_errors++;
             }
         }
         dax_event_wait(ds, 500, NULL);
@@ -514,7 +536,6 @@ main (int argc, const char * argv[]) {
                 _caught_signal = 0;
             }
         }
-        loop_count++;
         /*TODO: Should scan ports to make sure that they are all still running */
     }
 
@@ -547,9 +568,9 @@ getout(int exitcode)
     dax_disconnect(ds);
 
     for(n = 0; n < config.portcount; n++) {
-    /* TODO: Should probably stop the running threads here and then close the ports */
+    /* TODO: Should probably stop the running threads here.  They may still use the
+     * ports so we can't free them */
         mb_close_port(config.ports[n]);
-        mb_destroy_port(config.ports[n]);
     }
     exit(exitcode);
 }
-- 
2.43.0


From ed218b1e4928cc78a29e08eae432d98766d4d0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:19 +0000
Subject: [PATCH 40/64] fix: daxlua script queue wrap, lost wake-up and
 deadlock, and interval thread sleep arithmetic

---
 src/modules/daxlua/threads.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/modules/daxlua/threads.c b/src/modules/daxlua/threads.c
index 715852b..03c44de 100644
--- a/src/modules/daxlua/threads.c
+++ b/src/modules/daxlua/threads.c
@@ -41,7 +41,7 @@ static pthread_attr_t attr;
 
 static script_t **script_queue;
 static int q_first, q_last;
-static int q_full, q_empty;
+static int q_full, q_empty = 1;
 static int q_exit;
 
 
@@ -71,9 +71,9 @@ _q_push(script_t *script) {
     //DF("pushing %s, q_first = %d, q_last = %d",script->name, q_first, q_last);
     script_queue[q_last] = script;
     q_last++;
+    if(q_last >= queue_size) q_last = 0;
     if(q_last == q_first) q_full = 1;
     q_empty = 0;
-    if(q_last >= queue_size) q_last = 0;
     return 0;
 }
 
@@ -128,7 +128,7 @@ add_interval_thread(char *name, long interval) {
 static void *
 _interval_thread(void* thread_def) {
     interval_thread_t *t;
-    struct timespec start, end;
+    struct timespec start, end, delay;
     long long sleep_time;
 
     t = (interval_thread_t *)thread_def;
@@ -140,13 +140,19 @@ _interval_thread(void* thread_def) {
         }
         clock_gettime(CLOCK_MONOTONIC, &end);
 
-        sleep_time = (t->interval * 1000) - ((end.tv_sec - start.tv_sec) * 1e6) + ((end.tv_nsec - start.tv_nsec) / 1e3);
+        /* What is left of the interval in microseconds */
+        sleep_time = (long long)t->interval * 1000
+                   - ((long long)(end.tv_sec - start.tv_sec) * 1000000 + (end.tv_nsec - start.tv_nsec) / 1000);
         if(sleep_time < 0) {
             t->overruns++;
-            *(dax_udint *)(t->tag_data + DAX_TAGNAME_SIZE+ sizeof(dax_udint)*2) = t->overruns;
-            dax_tag_write(ds, t->handle, t->tag_data);
+            if(t->tag_data != NULL) {
+                memcpy((char *)t->tag_data + DAX_TAGNAME_SIZE + sizeof(dax_udint)*2, &t->overruns, sizeof(dax_udint));
+                dax_tag_write(ds, t->handle, t->tag_data);
+            }
         } else {
-            usleep(sleep_time); /* Just for now need to calculate the time */
+            delay.tv_sec = sleep_time / 1000000;
+            delay.tv_nsec = (sleep_time % 1000000) * 1000;
+            nanosleep(&delay, NULL);
         }
 
     }
@@ -225,7 +231,9 @@ __queue_thread(void *num) {
     pthread_mutex_lock(&q_lock);
     while(1) {
         if(q_exit) break;
-        pthread_cond_wait(&q_cond, &q_lock);
+        /* There may already be work on the queue, nobody will signal again
+           for that. */
+        if(q_empty) pthread_cond_wait(&q_cond, &q_lock);
 
         while(! q_empty) {
             script = _q_pop(); // Get the job off of the queue <<sorta>>
@@ -278,6 +286,7 @@ _run_queue_scripts(void) {
                 pthread_mutex_unlock(&q_lock);
                 n++;
             } else { /* If the queue is full */
+                pthread_mutex_unlock(&q_lock);
                 usleep(50000);
             }
         } else { /* Not an event script */
-- 
2.43.0


From 6f7120fd82577b4b3062d686c3e785cb90805c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:06 +0000
Subject: [PATCH 41/64] fix: daxlua configuration of triggers and intervals
 with missing or unsuitable values

---
 src/modules/daxlua/daxlua.h |  5 +++++
 src/modules/daxlua/luaopt.c | 21 ++++++++++++++-------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/modules/daxlua/daxlua.h b/src/modules/daxlua/daxlua.h
index e6d63bf..4ac45b7 100644
--- a/src/modules/daxlua/daxlua.h
+++ b/src/modules/daxlua/daxlua.h
@@ -35,6 +35,7 @@
 #define MODE_READ     0x01  /* Tag read from server before script runs */
 #define MODE_WRITE    0x02  /* Tag written to the server after the scrpt runs */
 #define MODE_STATIC   0x04  /* Static global value (mutulally exclusive from read / wrtite */
+#define MODE_ZEROED   0x40  /* Flag set after an output has been given its first value */
 #define MODE_INIT     0x80  /* Flag set after then handle has been initialized */
 
 #define COMMAND_ENABLE 0x01
@@ -64,6 +65,7 @@ typedef struct Trigger_t {
     int type;
     lua_Number value;
     tag_handle handle;
+    pthread_mutex_t lock; /* Protects the data that came with the event */
     uint8_t *buff;
     uint8_t new_data;
     dax_id id;
@@ -74,6 +76,8 @@ typedef struct Script_t {
     lua_State *L;
     pthread_mutex_t lock;
     tag_handle handle;
+    pthread_mutex_t tag_lock; /* Keeps tag_enabled like the bit in our tag */
+    unsigned char tag_enabled;
     unsigned char enabled;
     unsigned char failed;
     unsigned char command;
@@ -123,6 +127,7 @@ script_t *get_script(int index);
 script_t *get_script_name(char *name);
 int add_global(script_t *script, char *varname, char* tagname, unsigned char mode);
 int add_static(script_t *script, lua_State *L, char* varname);
+void set_command(script_t *script, unsigned char command);
 int write_script_tag(script_t *script);
 
 
diff --git a/src/modules/daxlua/luaopt.c b/src/modules/daxlua/luaopt.c
index b14f45d..be84a5b 100644
--- a/src/modules/daxlua/luaopt.c
+++ b/src/modules/daxlua/luaopt.c
@@ -34,24 +34,26 @@ extern dax_state *ds;
  * the trigger */
 static const char *
 _set_trigger(lua_State *L, trigger_t *t) {
-    char *string;
+    const char *string;
 
     lua_getfield(L, -1, "tag");
 
     t->buff = NULL;
     /* This indicates to the starting func that we are not configured */
     t->handle.size = 0;
-    t->tagname = strdup((char *)lua_tostring(L, -1));
+    string = lua_tostring(L, -1);
+    t->tagname = string == NULL ? NULL : strdup(string);
     t->new_data = 0;
+    pthread_mutex_init(&t->lock, NULL);
     if(t->tagname == NULL) {
         return "'tagname' is required for an event trigger";
     }
     lua_pop(L, 1);
 
     lua_getfield(L, -1, "type");
-    string = (char *)lua_tostring(L, -1);
-    t->type = dax_event_string_to_type(string);
-    if(t->type == 0) {
+    string = lua_tostring(L, -1);
+    t->type = string == NULL ? 0 : dax_event_string_to_type((char *)string);
+    if(t->type <= 0) {
         return "'type' event type is required for an event trigger";
     }
     lua_pop(L, 1);
@@ -129,7 +131,7 @@ _add_script(lua_State *L) {
         if(errstr != NULL) {
             free(si->script_trigger);
             si->script_trigger = NULL;
-            luaL_error(L, errstr);
+            luaL_error(L, "%s", errstr);
         }
     } else if(!lua_isnil(L, -1)) { /* If nil we ignore it otherwise error */
         luaL_error(L, "script trigger description must be a table");
@@ -221,6 +223,7 @@ static int
 _add_interval_thread(lua_State *L) {
     char *name;
     long interval;
+    lua_Number value;
 
     if(lua_gettop(L) != 2) {
         luaL_error(L, "add_interval_thread function requires two arguments (name, interval)");
@@ -231,7 +234,11 @@ _add_interval_thread(lua_State *L) {
         luaL_error(L, "first argument to add_interval_thread function must be a string");
     }
     if(lua_isnumber(L, 2)) {
-        interval = lua_tonumber(L, 2);
+        value = lua_tonumber(L, 2);
+        if(!(value >= 0 && value <= UINT32_MAX)) {
+            luaL_error(L, "interval of thread %s is out of range", name);
+        }
+        interval = value;
     } else {
         luaL_error(L, "second argument to add_interval_thread must be a number");
     }
-- 
2.43.0


From 0d676b2bf7fb9c9d723ac59d97bd5f4c0a68f32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:06 +0000
Subject: [PATCH 42/64] fix: daxlua script execution: protected globals
 exchange, enable bit of the script tag, trigger data race, deleted tags,
 script array growth

---
 src/modules/daxlua/luaif.c   |  44 ++---
 src/modules/daxlua/scripts.c | 350 ++++++++++++++++++++++++-----------
 src/modules/daxlua/threads.c |  24 ++-
 3 files changed, 271 insertions(+), 147 deletions(-)

diff --git a/src/modules/daxlua/luaif.c b/src/modules/daxlua/luaif.c
index 8249427..8515226 100644
--- a/src/modules/daxlua/luaif.c
+++ b/src/modules/daxlua/luaif.c
@@ -37,51 +37,42 @@ fetch_tag(lua_State *L, tag_handle h)
     int result;
     void *data;
 
-    data = malloc(h.size);
-    if(data == NULL) {
-        return ERR_ALLOC;
-    }
+    /* Lua will free this for us, even if we don't get to the end */
+    data = lua_newuserdata(L, h.size);
 
     result = dax_read_tag(ds, h, data);
 
     if(result) {
-        free(data);
+        lua_pop(L, 1);
         return result;
     }
 
     daxlua_dax_to_lua(L, h, data);
-
-    free(data);
+    lua_remove(L, -2);
     return 0;
 }
 
 /* This function reads the variable from the top of the Lua stack
-   and sends it to the opendax tag given by *tagname */
+   and sends it to the opendax tag given by *tagname.  The stack may
+   have more than that on it when it returns. */
 int
 send_tag(lua_State *L, tag_handle h)
 {
-    int result, n;
+    int result, n, value;
     char q = 0;
     void *mask, *data;
 
-    data = malloc(h.size);
-    if(data == NULL) {
-        luaL_error(L, "tag_write() unable to allocate data area");
-    }
-
-    mask = malloc(h.size);
-    if(mask == NULL) {
-        free(data);
-        luaL_error(L, "tag_write() unable to allocate mask memory");
-    }
+    value = lua_gettop(L);
+    data = lua_newuserdata(L, h.size);
+    mask = lua_newuserdata(L, h.size);
+    bzero(data, h.size);
     bzero(mask, h.size);
+    lua_pushvalue(L, value);
 
     // TODO: We should be able to convert this to use the libdaxlua library functions instead
     //       and get all this duplication out of here
     result = daxlua_lua_to_dax(L, h, data, mask);
     if(result) {
-        free(data);
-        free(mask);
         return result;
     }
 
@@ -99,16 +90,7 @@ send_tag(lua_State *L, tag_handle h)
     } else {
         result = dax_write_tag(ds, h, data);
     }
-
-    if(result) {
-        free(data);
-        free(mask);
-        return result;
-    }
-
-    free(data);
-    free(mask);
-    return 0;
+    return result;
 }
 
 
diff --git a/src/modules/daxlua/scripts.c b/src/modules/daxlua/scripts.c
index 3d98026..5b20214 100644
--- a/src/modules/daxlua/scripts.c
+++ b/src/modules/daxlua/scripts.c
@@ -32,6 +32,8 @@ static int scriptcount = 0;
 extern dax_state *ds;
 extern int runsignal;
 
+#define SCRIPT_TAG_LEN (DAX_TAGNAME_SIZE + 1 + sizeof(dax_ulint))
+
 /* This function returns an index into the scripts[] array for
    the next unassigned script */
 script_t *
@@ -41,7 +43,7 @@ get_new_script(void)
     int n;
 
     /* Allocate the script array if it has not already been done */
-    if(scriptcount == 0) {
+    if(scripts == NULL) {
         scripts = malloc(sizeof(script_t) * NUM_SCRIPTS);
         if(scripts == NULL) {
             dax_log(DAX_LOG_FATAL, "Cannot allocate memory for the scripts");
@@ -52,6 +54,7 @@ get_new_script(void)
         ns = realloc(scripts, sizeof(script_t) * (scripts_size + NUM_SCRIPTS));
         if(ns != NULL) {
             scripts = ns;
+            scripts_size += NUM_SCRIPTS;
         } else {
             dax_log(DAX_LOG_ERROR, "Failure to allocate additional scripts");
             return NULL;
@@ -60,8 +63,15 @@ get_new_script(void)
     n = scriptcount;
     scriptcount++;
     /* Initialize the script structure */
+    memset(&scripts[n], 0, sizeof(script_t));
     scripts[n].L = luaL_newstate();
+    if(scripts[n].L == NULL) {
+        dax_log(DAX_LOG_ERROR, "Failure to allocate interpreter for script");
+        scriptcount--;
+        return NULL;
+    }
     pthread_mutex_init(&scripts[n].lock, NULL);
+    pthread_mutex_init(&scripts[n].tag_lock, NULL);
     scripts[n].name =  "";
     scripts[n].globals = NULL;
     scripts[n].firstrun = 1;
@@ -82,6 +92,7 @@ get_new_script(void)
 void
 del_script(void) {
    scriptcount--;
+   lua_close(scripts[scriptcount].L);
 }
 
 int
@@ -93,10 +104,12 @@ add_global(script_t *script, char *varname, char* tagname, unsigned char mode) {
         glo->name = strdup( varname );
         glo->tagname = strdup( tagname );
         if(glo->name == NULL || glo->tagname == NULL) {
+            free(glo->name);
+            free(glo->tagname);
             free(glo);
             return ERR_ALLOC;
         }
-        glo->mode = mode;
+        glo->mode = mode & (MODE_READ | MODE_WRITE);
         glo->ref = LUA_NOREF;
         glo->next = script->globals;
         script->globals = glo;
@@ -148,102 +161,195 @@ add_static(script_t *script, lua_State *L, char* varname) {
 }
 
 
-/* Looks into the list of tags in the script and reads those tags
- * from the server.  Then makes these tags global Lua variables
- * to the script */
-static inline int
-_receive_globals(script_t *s) {
+/* Gives one of the script's global Lua variables the value that it should have
+ * when the script starts.  This is called by way of lua_pcall() because we
+ * don't know what the script has done to the table of its globals. */
+static int
+_receive_global(lua_State *L) {
     int result;
+    script_t *s;
     global_t *this;
     void *data;
 
-    this = s->globals;
-
-    while(this != NULL) {
-        /* If we are not initialized yet then we should try to get a handle */
-        if(! (this->mode & MODE_INIT) ) {
-            result = dax_tag_handle(ds, &this->handle, this->tagname, 0);
-            if(result == 0) {
-                /* If successfull then set the INIT flag */
-                this->mode = this->mode | MODE_INIT;
-                /* Then if we are not a READ tag or STATIC then set it to
-                   all zeroes once */
-                if(!(this->mode & MODE_READ) && !(this->mode & MODE_STATIC)) {
-                    /* Create a data block and fill it with zeros */
-                    data = malloc(this->handle.size);
-                    if(data == NULL) {
-                        return ERR_ALLOC;
-                    }
-                    bzero(data, this->handle.size);
-                    daxlua_dax_to_lua(s->L, this->handle, data);
-                    lua_setglobal(s->L, this->name);
-                    free(data);
-                }
-            } else {
-                dax_log(DAX_LOG_DEBUG, "Failed to get tag %s.  Will retry.", this->tagname);
+    s = lua_touserdata(L, 1);
+    this = lua_touserdata(L, 2);
+
+    if(this == NULL) { /* Not one of the configured ones */
+        lua_pushboolean(L, s->firstrun);
+        lua_setglobal(L, "_firstrun");
+        return 0;
+    }
+    /* If we are not initialized yet then we should try to get a handle */
+    if(! (this->mode & MODE_INIT) ) {
+        result = dax_tag_handle(ds, &this->handle, this->tagname, 0);
+        if(result == 0) {
+            /* If successfull then set the INIT flag */
+            this->mode = this->mode | MODE_INIT;
+            /* Then if we are not a READ tag or STATIC then set it to
+               all zeroes once */
+            if(!(this->mode & (MODE_READ | MODE_STATIC | MODE_ZEROED))) {
+                this->mode = this->mode | MODE_ZEROED;
+                /* Create a data block and fill it with zeros */
+                data = lua_newuserdata(L, this->handle.size);
+                bzero(data, this->handle.size);
+                daxlua_dax_to_lua(L, this->handle, data);
+                lua_setglobal(L, this->name);
             }
-        } else if((this->mode & MODE_STATIC) && this->ref != LUA_NOREF) {
-            lua_rawgeti(s->L, LUA_REGISTRYINDEX, this->ref);
-            lua_setglobal(s->L, this->name);
-        }
-        if(this->mode & MODE_READ && this->mode & MODE_INIT) {
-            if(fetch_tag(s->L, this->handle)) {
-                // TODO we might should unitialize this tag if it has been deleted
-                lua_pushnil(s->L);
+        } else {
+            dax_log(DAX_LOG_DEBUG, "Failed to get tag %s.  Will retry.", this->tagname);
+            if(this->mode & MODE_READ) {
+                lua_pushnil(L);
+                lua_setglobal(L, this->name);
             }
-            lua_setglobal(s->L, this->name);
         }
-        this = this->next;
+    } else if((this->mode & MODE_STATIC) && this->ref != LUA_NOREF) {
+        lua_rawgeti(L, LUA_REGISTRYINDEX, this->ref);
+        lua_setglobal(L, this->name);
+    }
+    if(this->mode & MODE_READ && this->mode & MODE_INIT) {
+        if(fetch_tag(L, this->handle)) {
+            /* It may have been deleted.  It might come back */
+            this->mode = this->mode & ~MODE_INIT;
+            lua_pushnil(L);
+        }
+        lua_setglobal(L, this->name);
     }
-    lua_pushboolean(s->L, s->firstrun);
-    lua_setglobal(s->L, "_firstrun");
+    return 0;
+}
+
+/* Writes one of the script's global Lua variables out to its tag.  Also called
+   by way of lua_pcall() */
+static int
+_send_global(lua_State *L) {
+    int result;
+    global_t *this;
+
+    this = lua_touserdata(L, 2);
+    /* If it doesn't have a value then there is nothing to write */
+    if(lua_getglobal(L, this->name) == LUA_TNIL) return 0;
 
+    result = send_tag(L, this->handle);
+    if(result == ERR_DELETED || result == ERR_NOTFOUND || result == ERR_ARG) {
+        this->mode = this->mode & ~MODE_INIT; /* It may have been deleted.  It might come back */
+    } else if(result) {
+        luaL_error(L, "unable to write %s to %s", this->name, this->tagname);
+    }
     return 0;
 }
 
+/* Calls one of the functions above for the given global */
+static int
+_call_protected(script_t *s, lua_CFunction f, global_t *global) {
+    int top, result;
+
+    top = lua_gettop(s->L);
+    lua_pushcfunction(s->L, f);
+    lua_pushlightuserdata(s->L, s);
+    lua_pushlightuserdata(s->L, global);
+    result = lua_pcall(s->L, 2, 0, 0);
+    if(result) {
+        dax_log(DAX_LOG_ERROR, "Error with the globals of script %s - %s", s->name, lua_tostring(s->L, -1));
+    }
+    lua_settop(s->L, top);
+    return result;
+}
+
+/* Looks into the list of tags in the script and reads those tags
+ * from the server.  Then makes these tags global Lua variables
+ * to the script */
+static void
+_receive_globals(script_t *s) {
+    global_t *this;
+
+    for(this = s->globals; this != NULL; this = this->next) {
+        _call_protected(s, _receive_global, this);
+    }
+    _call_protected(s, _receive_global, NULL);
+}
+
 /* Looks into the list of tags in the script and reads these global
    variables from the script and then writes the values out to the
    server */
-static inline int
+static void
 _send_globals(script_t *s)
 {
     global_t *this;
 
-    this = s->globals;
-
-    while(this != NULL) {
+    for(this = s->globals; this != NULL; this = this->next) {
         /* If the write mode flag is set and we are initialized */
         if(this->mode & MODE_WRITE && this->mode & MODE_INIT) {
-            lua_getglobal(s->L, this->name);
-
-            if(send_tag(s->L, this->handle)) {
-                return -1;
-            }
-            lua_pop(s->L, 1);
+            _call_protected(s, _send_global, this);
         }
-
-        this = this->next;
     }
+}
+
+/* Makes the data that came with the last event available to the script */
+static int
+_receive_trigger(lua_State *L) {
+    script_t *s;
+    trigger_t *t;
+    void *data;
+
+    s = lua_touserdata(L, 1);
+    t = s->script_trigger;
+    data = lua_newuserdata(L, t->handle.size);
+
+    pthread_mutex_lock(&t->lock); /* Don't let the next event change it */
+    memcpy(data, t->buff, t->handle.size);
+    t->new_data = 0;
+    pthread_mutex_unlock(&t->lock);
+
+    daxlua_dax_to_lua(L, t->handle, data);
+    lua_setglobal(L, "_trigger_data");
     return 0;
 }
 
+/* Writes the enable bit of the script's tag if it should be different than
+   it is.  The tag_lock mutex must be held before calling this function */
+static void
+_update_enable_bit(script_t *script) {
+    uint8_t buff[SCRIPT_TAG_LEN], mask[SCRIPT_TAG_LEN];
+    unsigned char enable;
+
+    enable = script->command ? script->command == COMMAND_ENABLE : script->enabled;
+    if(enable == script->tag_enabled || script->handle.size != SCRIPT_TAG_LEN) return;
+
+    bzero(buff, SCRIPT_TAG_LEN);
+    bzero(mask, SCRIPT_TAG_LEN);
+    buff[DAX_TAGNAME_SIZE] = enable;
+    mask[DAX_TAGNAME_SIZE] = 0x01;
+    if(dax_tag_mask(ds, script->handle, buff, mask) == ERR_OK) {
+        script->tag_enabled = enable;
+    }
+}
+
+/* Another thread wants to change the enabled state of the script.  The script
+   might be running right now, so it will find out about that the next time. */
+void
+set_command(script_t *script, unsigned char command) {
+    pthread_mutex_lock(&script->tag_lock);
+    script->command = command;
+    _update_enable_bit(script);
+    pthread_mutex_unlock(&script->tag_lock);
+}
+
 void
 run_script(script_t *s) {
     struct timespec start;
 
+    pthread_mutex_lock(&s->lock); /* Make sure we only run one at a time. */
     /* this is to avoid a race condition where another script could set the
        enabled flag while the script was running and then the script would
        disable itself afterward. */
+    pthread_mutex_lock(&s->tag_lock);
     if(s->command) {
-        if(s->command == COMMAND_ENABLE) {
-            s->enabled = 1;
-        } else if(s->command == COMMAND_DISABLE) {
-            s->enabled = 0;
-        }
+        s->enabled = s->command == COMMAND_ENABLE;
         s->command = 0x00;
     }
+    pthread_mutex_unlock(&s->tag_lock);
     /* In this case do nothing */
     if(s->failed || s->enabled == 0 || runsignal == 0) {
+        pthread_mutex_unlock(&s->lock);
         return;
     }
 
@@ -252,37 +358,30 @@ run_script(script_t *s) {
     /* This is the time that we are running the script now in mSec since system startup */
     s->thisscan = start.tv_sec*1e6 + start.tv_nsec / 1000;
 
-    pthread_mutex_lock(&s->lock); /* Make sure we only run one at a time. */
     if(s->script_trigger && s->script_trigger->new_data) {
-        daxlua_dax_to_lua(s->L, s->script_trigger->handle, s->script_trigger->buff);
-        lua_setglobal(s->L, "_trigger_data");
-        s->script_trigger->new_data = 0;
+        _call_protected(s, _receive_trigger, NULL);
     }
 
     /* Get the configured tags and set the globals for the script */
-    if(_receive_globals(s)) {
-        dax_log(DAX_LOG_ERROR, "Unable to find all the global tags\n");
-    } else {
-        /* retrieve the funciton and put it on the stack */
-        lua_rawgeti(s->L, LUA_REGISTRYINDEX, s->func_ref);
-
-        s->running = 1;
-        /* Run the script that is on the top of the stack */
-        if( lua_pcall(s->L, 0, 0, 0) ) {
-            dax_log(DAX_LOG_ERROR, "Error Running Script %s - %s",s->name, lua_tostring(s->L, -1));
-            if(s->flags & CONFIG_FAIL_ON_ERROR)s->failed = 1;
-        }
-        s->running = 0;
-        /* Set the lastscan value in uSec */
-        s->lastscan = s->thisscan;
-        /* Write the configured global tags out to the server */
-        /* TODO: Should we do something if this fails, if register globals
-           works then this should too */
-        _send_globals(s);
-        s->executions++;
-        s->firstrun = 0;
-        write_script_tag(s);
+    _receive_globals(s);
+    /* retrieve the funciton and put it on the stack */
+    lua_rawgeti(s->L, LUA_REGISTRYINDEX, s->func_ref);
+
+    s->running = 1;
+    /* Run the script that is on the top of the stack */
+    if( lua_pcall(s->L, 0, 0, 0) ) {
+        dax_log(DAX_LOG_ERROR, "Error Running Script %s - %s",s->name, lua_tostring(s->L, -1));
+        if(s->flags & CONFIG_FAIL_ON_ERROR)s->failed = 1;
+        lua_pop(s->L, 1);
     }
+    s->running = 0;
+    /* Set the lastscan value in uSec */
+    s->lastscan = s->thisscan;
+    /* Write the configured global tags out to the server */
+    _send_globals(s);
+    s->executions++;
+    s->firstrun = 0;
+    write_script_tag(s);
     pthread_mutex_unlock(&s->lock); /* Make sure we only run one at a time. */
 }
 
@@ -390,7 +489,7 @@ _get_script_name(lua_State *L) {
     int idx, result;
 
     idx = lua_tointegerx(L, 1, &result);
-    if(result && idx < scriptcount) {
+    if(result && idx >= 0 && idx < scriptcount) {
         lua_pushstring(L, scripts[idx].name);
     } else {
         lua_pushnil(L);
@@ -424,7 +523,7 @@ _disable_script(lua_State *L) {
         }
     }
     if(idx >= 0 && idx < scriptcount) {
-        scripts[idx].command = COMMAND_DISABLE;
+        set_command(&scripts[idx], COMMAND_DISABLE);
         lua_pushinteger(L, idx);
     } else {
         lua_pushnil(L);
@@ -455,7 +554,7 @@ _enable_script(lua_State *L) {
         }
     }
     if(idx >= 0 && idx < scriptcount) {
-        scripts[idx].command = COMMAND_ENABLE;
+        set_command(&scripts[idx], COMMAND_ENABLE);
         lua_pushinteger(L, idx);
     } else {
         lua_pushnil(L);
@@ -474,8 +573,12 @@ _initialize_script(script_t *s)
     /* Create a lua interpreter object */
     setup_interpreter(s->L);
     /* load and compile the file */
-    if(luaL_loadfile(s->L, s->filename) ) {
+    if(s->filename == NULL) {
+        dax_log(DAX_LOG_ERROR, "Script %s has no filename", s->name);
+        s->failed = 1;
+    } else if(luaL_loadfile(s->L, s->filename) ) {
         dax_log(DAX_LOG_ERROR, "Error Loading Main Script - %s", lua_tostring(s->L, -1));
+        lua_pop(s->L, 1);
         s->failed = 1;
     } else {
         /* Basicaly stores the Lua script */
@@ -524,22 +627,24 @@ _initialize_script(script_t *s)
 
 }
 
-#define SCRIPT_TAG_LEN (DAX_TAGNAME_SIZE + 1 + sizeof(dax_ulint))
-
+/* Somebody changed the enable bit in the script's tag.  Our own changes get
+   here too.  They may be old by now so we look at what the bit is now and not
+   at what it was. */
 static void
 _script_tag_callback(dax_state *ds, void *udata) {
     script_t *script = (script_t *)udata;
     uint8_t buff[SCRIPT_TAG_LEN];
-
-    dax_event_get_data(ds, buff, SCRIPT_TAG_LEN);
-
-    if(buff[DAX_TAGNAME_SIZE] & 0x01) { /* check enable bit */
-        script->enabled = 1;
-    } else {
-        script->enabled = 0;
+    unsigned char enable;
+
+    pthread_mutex_lock(&script->tag_lock);
+    if(dax_tag_read(ds, script->handle, buff) == ERR_OK) {
+        enable = buff[DAX_TAGNAME_SIZE] & 0x01; /* check enable bit */
+        if(enable != script->tag_enabled) {
+            script->tag_enabled = enable;
+            script->command = enable ? COMMAND_ENABLE : COMMAND_DISABLE;
+        }
     }
-
-    write_script_tag(script);
+    pthread_mutex_unlock(&script->tag_lock);
 }
 
 int
@@ -550,7 +655,8 @@ start_all_scripts(void)
     dax_cdt *script_cdt;
     tag_type script_type;
     char tagname[DAX_TAGNAME_SIZE+1];
-    char tagname2[DAX_TAGNAME_SIZE+12];
+    char tagname2[DAX_TAGNAME_SIZE+20];
+    tag_handle h;
     dax_id id;
 
     script_cdt = dax_cdt_new("lua_script", &result);
@@ -577,11 +683,21 @@ start_all_scripts(void)
 
         snprintf(tagname2, sizeof(tagname2), "%s[%d]", tagname, n);
         result = dax_tag_handle(ds, &scripts[n].handle, tagname2, 0);
-        if(result == ERR_OK) {
-            result = dax_event_add(ds, &scripts[n].handle, EVENT_CHANGE, NULL , &id, _script_tag_callback, &scripts[n], NULL);
-            result = dax_event_options(ds, id, EVENT_OPT_SEND_DATA);
+        if(result) {
+            scripts[n].handle.size = 0;
+            continue;
         }
         write_script_tag(&scripts[n]);
+        /* The enable bit is the only one that others can change and an event for
+           the rest of the tag would only be us counting the executions. */
+        snprintf(tagname2, sizeof(tagname2), "%s[%d].enable", tagname, n);
+        result = dax_tag_handle(ds, &h, tagname2, 0);
+        if(result == ERR_OK) {
+            result = dax_event_add(ds, &h, EVENT_CHANGE, NULL , &id, _script_tag_callback, &scripts[n], NULL);
+        }
+        if(result) {
+            dax_log(DAX_LOG_ERROR, "Unable to add the enable event for script '%s'", scripts[n].name);
+        }
     }
 
     thread_start_all();
@@ -620,18 +736,28 @@ get_script_name(char *name)
     return NULL;
 }
 
+/* Updates the script's tag.  The enable bit is only written if we changed it
+   because it might have been changed by somebody else in the meantime. */
 int
 write_script_tag(script_t *script) {
-    uint8_t buff[SCRIPT_TAG_LEN];
+    uint8_t buff[SCRIPT_TAG_LEN], mask[SCRIPT_TAG_LEN];
+    int result;
+
+    if(script->handle.size != SCRIPT_TAG_LEN) return ERR_NOTFOUND;
 
     bzero(buff, SCRIPT_TAG_LEN);
+    memset(mask, 0xFF, SCRIPT_TAG_LEN);
     memccpy(buff, script->name, '\0', DAX_TAGNAME_SIZE);
-    if(script->enabled) {
-        buff[DAX_TAGNAME_SIZE] = 0x01;
-    }
     if(script->failed) {
         buff[DAX_TAGNAME_SIZE] |= 0x02;
     }
-    *(dax_ulint *)&buff[DAX_TAGNAME_SIZE + 1] = script->executions;
-    return dax_tag_write(ds, script->handle, buff);
-}
\ No newline at end of file
+    mask[DAX_TAGNAME_SIZE] = 0x02;
+    memcpy(&buff[DAX_TAGNAME_SIZE + 1], &script->executions, sizeof(dax_ulint));
+
+    result = dax_tag_mask(ds, script->handle, buff, mask);
+
+    pthread_mutex_lock(&script->tag_lock);
+    _update_enable_bit(script);
+    pthread_mutex_unlock(&script->tag_lock);
+    return result;
+}
diff --git a/src/modules/daxlua/threads.c b/src/modules/daxlua/threads.c
index 03c44de..302e732 100644
--- a/src/modules/daxlua/threads.c
+++ b/src/modules/daxlua/threads.c
@@ -309,10 +309,12 @@ _script_event_dispatch(dax_state *d, void *udata) {
     if(t->buff != NULL) {
         /* We have to retrieve the data here but we cannot write it to the Lua
            state yet because of race conditions. */
+        pthread_mutex_lock(&t->lock);
         result = dax_event_get_data(ds, t->buff, t->handle.size);
         if(result > 0) {
             t->new_data = 1; /* This flag tells run_script() that we have new data */
         }
+        pthread_mutex_unlock(&t->lock);
     }
 
     pthread_mutex_lock(&q_lock);
@@ -332,7 +334,7 @@ _script_enable_dispatch(dax_state *d, void *udata) {
     script_t *script;
 
     script = (script_t *)udata;
-    script->command = COMMAND_ENABLE;
+    set_command(script, COMMAND_ENABLE);
 }
 
 static void
@@ -340,7 +342,7 @@ _script_disable_dispatch(dax_state *d, void *udata) {
     script_t *script;
 
     script = (script_t *)udata;
-    script->command = COMMAND_DISABLE;
+    set_command(script, COMMAND_DISABLE);
 }
 
 
@@ -394,6 +396,16 @@ _convert_lua_number(tag_type datatype, dax_type_union *dest, lua_Number x) {
 }
 
 
+/* The event was not created so the trigger is still not configured */
+static void
+_trigger_failed(trigger_t *t) {
+    dax_log(DAX_LOG_ERROR, "Unable to create the event for trigger tag %s.  Will retry.", t->tagname);
+    free(t->buff);
+    t->buff = NULL;
+    t->handle.size = 0;
+}
+
+
 /* This function attempts to setup the trigger events with the opendax
    tagserver for each script that has a trigger assigned.  It will return
    the number of scripts where the event creation failed.  This is so that
@@ -422,15 +434,17 @@ _set_trigger_events(void *x) {
                 if(result) {
                     fails++;
                 } else {
+                    /* The event can happen as soon as it is added.
+                       If this is NULL we won't mess with the data in the dispatch function*/
+                    t->buff = malloc(t->handle.size);
                     _convert_lua_number(t->handle.type, &u, t->value);
                     result = dax_event_add(ds, &t->handle, t->type, (void *)&u,
                                            &t->id, _script_event_dispatch, s, NULL);
                     if(result) {
+                        _trigger_failed(t);
                         fails++;
                     } else {
                         result = dax_event_options(ds, t->id, EVENT_OPT_SEND_DATA);
-                        /* If this is NULL we won't mess with the data in the dispatch function*/
-                        t->buff = malloc(t->handle.size);
                     }
                 }
             }
@@ -447,6 +461,7 @@ _set_trigger_events(void *x) {
                     result = dax_event_add(ds, &t->handle, t->type, (void *)&u,
                                            &t->id, _script_enable_dispatch, s, NULL);
                     if(result) {
+                        _trigger_failed(t);
                         fails++;
                     }
                 }
@@ -461,6 +476,7 @@ _set_trigger_events(void *x) {
                     result = dax_event_add(ds, &t->handle, t->type, (void *)&u,
                                            &t->id, _script_disable_dispatch, s, NULL);
                     if(result) {
+                        _trigger_failed(t);
                         fails++;
                     }
                 }
-- 
2.43.0


From c769cdc6e9f18500a2a35519b83b67cf0d913834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:47 +0000
Subject: [PATCH 43/64] fix: client keeps a compound datatype that could not be
 created, error replies are always errors, unterminated datatype definitions
 are refused

---
 src/lib/libmsg.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 633114f..664bd72 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -168,7 +168,7 @@ _message_recv(dax_state *ds, int command, void *payload, size_t *size, int respo
         result = ERR_GENERIC;
         if(ds->last_msg->size >= sizeof(int32_t)) {
             result = stom_dint((*(int32_t *)&ds->last_msg->data[0]));
-            if(result == 0) result = ERR_GENERIC;
+            if(result >= 0) result = ERR_GENERIC;
         }
         free(ds->last_msg);
         ds->last_msg = NULL;
@@ -315,7 +315,7 @@ _mod_register(dax_state *ds, char *name)
         result = ERR_GENERIC;
         if(msg.size >= sizeof(int32_t)) {
             memcpy(&result, msg.data, sizeof(int32_t));
-            if(result == 0) result = ERR_GENERIC;
+            if(result >= 0) result = ERR_GENERIC;
         }
         return result;
     }
@@ -1523,12 +1523,13 @@ dax_cdt_create(dax_state *ds, dax_cdt *cdt, tag_type *type)
     size = sizeof(rbuff);
     result = _message_recv(ds, MSG_CDT_CREATE, rbuff, &size, 1);
     if(result == 0 && size < sizeof(tag_type)) result = ERR_MSG_BAD;
+    if(result == 0) result = add_cdt_to_cache(ds, stom_udint(*((tag_type *)rbuff)), buff);
 
+    /* If we return an error the cdt still belongs to the caller */
     if(result == 0) {
         if(type != NULL) {
             *type = stom_udint(*((tag_type *)rbuff));
         }
-        result = add_cdt_to_cache(ds, stom_udint(*((tag_type *)rbuff)), buff);
         dax_cdt_free(cdt);
     }
     pthread_mutex_unlock(&ds->lock);
@@ -1560,7 +1561,7 @@ dax_cdt_get(dax_state *ds, tag_type cdt_type, char *name)
 {
     int result;
     size_t size;
-    char buff[MSG_DATA_SIZE + 1];
+    char buff[MSG_DATA_SIZE];
     tag_type type;
 
     if(name != NULL) {
@@ -1586,9 +1587,8 @@ dax_cdt_get(dax_state *ds, tag_type cdt_type, char *name)
     size = MSG_DATA_SIZE;
     result = _message_recv(ds, MSG_CDT_GET, buff, &size, 1);
     if(result == 0) {
-        buff[size] = '\0';
         type = 0;
-        if(size > sizeof(tag_type)) type = stom_udint(*((tag_type *)buff));
+        if(size > sizeof(tag_type) && buff[size - 1] == '\0') type = stom_udint(*((tag_type *)buff));
         /* Make sure that the server sent us something that we can use */
         if(!IS_CUSTOM(type) || (name == NULL && type != cdt_type)) {
             result = ERR_MSG_BAD;
-- 
2.43.0


From c9c5ec1162d09806a8498032f89723a7a6850687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:47 +0000
Subject: [PATCH 44/64] fix: master: process strings belong to the process,
 argument lists always end, configdir is set

---
 src/master/mstr_config.c | 36 ++++++++++++++++++++++--------------
 src/master/mstr_config.h |  9 +++++++++
 src/master/process.c     | 13 +++++++------
 3 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/src/master/mstr_config.c b/src/master/mstr_config.c
index e135581..3902d43 100644
--- a/src/master/mstr_config.c
+++ b/src/master/mstr_config.c
@@ -98,7 +98,8 @@ parsecommandline(int argc, const char *argv[])
  * then we find the uid for that user.  If we can't find the uid for the
  * user then we set the uid to negative.  If the uid is negative then we
  * will not start the process.  If it's zero then the process get's the
- * master's uid.  Same for gid. */
+ * master's uid.  If neither was set then we use the default user if there
+ * is one.  Same for gid. */
 static void
 _set_uid_gid(dax_process *proc)
 {
@@ -117,7 +118,8 @@ _set_uid_gid(dax_process *proc)
     }
     /* Neither the uid or the username were set */
     if(proc->uid < 0 && proc->user == NULL) {
-        proc->uid = 0;
+        pw = getpwnam(DEFAULT_USER);
+        proc->uid = pw == NULL ? 0 : pw->pw_uid;
     }
 
     if(proc->gid < 0 && proc->group != NULL) {
@@ -130,11 +132,22 @@ _set_uid_gid(dax_process *proc)
     }
     /* Neither the gid or the groupname were set */
     if(proc->gid < 0 && proc->group == NULL) {
-        proc->gid = 0;
+        gr = getgrnam(DEFAULT_GROUP);
+        proc->gid = gr == NULL ? 0 : gr->gr_gid;
     }
 
 }
 
+/* Returns a copy of the string at the top of the stack or NULL */
+static char *
+_get_string(lua_State *L)
+{
+    const char *string;
+
+    string = lua_tostring(L, -1);
+    return string == NULL ? NULL : strdup(string);
+}
+
 /* This is the wrapper for the add module function in the Lua configuration file */
 /* The arguments are a table that consist of all the configuration
    parameters of a module.  See the opendax.conf for examples */
@@ -180,19 +193,11 @@ _add_process(lua_State *L)
     /* for some reason not doing this strdup() would cause the username
      * 'opendax' to be read as 'openda'???*/
     lua_getfield(L, -1, "user");
-    if(! lua_isnil(L, -1)) {
-        proc->user = strdup((char *)lua_tostring(L, -1));
-    } else {
-        proc->user = "opendax";
-    }
+    proc->user = _get_string(L);
     lua_pop(L, 1);
 
     lua_getfield(L, -1, "group");
-    if(! lua_isnil(L, -1)) {
-        proc->group = strdup((char *)lua_tostring(L, -1));
-    } else {
-        proc->group = "opendax";
-    }
+    proc->group = _get_string(L);
     lua_pop(L, 1);
 
     lua_getfield(L, -1, "uid");
@@ -212,7 +217,7 @@ _add_process(lua_State *L)
     lua_pop(L, 1);
 
     lua_getfield(L, -1, "env");
-    proc->env = (char *)lua_tostring(L, -1);
+    proc->env = _get_string(L);
     lua_pop(L, 1);
 
     lua_getfield(L, -1, "delay");
@@ -308,6 +313,9 @@ readconfigfile(void)
     lua_pushstring(L, "opendax");
     lua_setglobal(L, CONFIG_GLOBALNAME);
 
+    lua_pushstring(L, ETC_DIR);
+    lua_setglobal(L, "configdir");
+
     /* load and run the configuration file */
     if(luaL_loadfile(L, _configfile)  || lua_pcall(L, 0, 0, 0)) {
         dax_log(DAX_LOG_ERROR, "Problem executing configuration file - %s", lua_tostring(L, -1));
diff --git a/src/master/mstr_config.h b/src/master/mstr_config.h
index e3f2039..b0c12b7 100644
--- a/src/master/mstr_config.h
+++ b/src/master/mstr_config.h
@@ -32,6 +32,15 @@
 #  define DEFAULT_DAEMONIZE 0
 #endif
 
+/* Processes run as these if the configuration doesn't say otherwise */
+#ifndef DEFAULT_USER
+#  define DEFAULT_USER "opendax"
+#endif
+
+#ifndef DEFAULT_GROUP
+#  define DEFAULT_GROUP "opendax"
+#endif
+
 #ifndef DEFAULT_PID
 #  define DEFAULT_PID "/var/run/opendax.pid"
 #endif
diff --git a/src/master/process.c b/src/master/process.c
index 0ee7746..37b16a3 100644
--- a/src/master/process.c
+++ b/src/master/process.c
@@ -105,10 +105,10 @@ _arglist_tok(char *path, char *str)
             arr[index++] = strdup(token); /* TODO: ERROR CHECK THIS */
             token = strtok_r(NULL, " ", &save);
         }
-        arr[index] = NULL;
 
         free(temp);
     }
+    arr[index] = NULL;
     return arr;
 }
 
@@ -118,7 +118,7 @@ process_add(char *name, char *path, char *arglist, unsigned int flags)
     dax_process *new, *this;
     dax_log(DAX_LOG_DEBUG,"Adding process %s to configuration",name);
 
-    new = malloc(sizeof(dax_process));
+    new = calloc(1, sizeof(dax_process));
     if(new) {
         new->fd = 0;
         new->efd = 0;
@@ -519,21 +519,22 @@ _print_process_list(void)
     dax_process *this;
     this = _process_list;
     char **args;
-    int n = 0;
+    int n;
 
     while(this != NULL) {
         printf("Process %s\n", this->name);
         printf("  path    = %s\n", this->path);
         args = this->arglist;
+        n = 0;
         while(args[n] != NULL) {
             printf("  arg[%d]    = %s\n", n, args[n]);
             n++;
         }
-        printf("  user     = %s\n", this->user);
+        printf("  user     = %s\n", this->user ? this->user : "");
         printf("  uid      = %d\n", this->uid);
-        printf("  group    = %s\n", this->group);
+        printf("  group    = %s\n", this->group ? this->group : "");
         printf("  gid      = %d\n", this->gid);
-        printf("  env      = %s\n", this->env);
+        printf("  env      = %s\n", this->env ? this->env : "");
         printf("  flags    = 0x%X\n", this->flags);
         printf("  delay    = %d\n", this->delay);
         printf("  rsdelay  = %ld\n", this->restartdelay);
-- 
2.43.0


From a54b26169403140213bf4201e1a0d3a2320af275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:56 +0000
Subject: [PATCH 45/64] fix: master: processes get their group before their
 user, none without its user, start delays survive signals, failed forks are
 retried

---
 src/master/process.c | 54 ++++++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/src/master/process.c b/src/master/process.c
index 37b16a3..d637274 100644
--- a/src/master/process.c
+++ b/src/master/process.c
@@ -228,39 +228,55 @@ process_start_all(void)
             while(result) {
                 timeout = rem;
                 result = nanosleep(&timeout, &rem);
-                if(errno == EFAULT)
-                    dax_log(DAX_LOG_FATAL, "Serious problem with nanosleep in function process_start_all()");
-                assert(errno != EINVAL);
+                if(result && errno != EINTR) {
+                    dax_log(DAX_LOG_ERROR, "Problem with nanosleep in function process_start_all() - %s", strerror(errno));
+                    break;
+                }
             }
         }
         this = this->next;
     }
 }
 
-static void
+/* Gives the process the user and the group that it should have.  The groups
+ * have to be changed first because we are not allowed to once we've changed the
+ * user.  If we are privileged and this doesn't work then the process should not
+ * be started because it would have our privileges. */
+static int
 _set_user_group(dax_process *proc)
 {
-    int result;
+    int result, fails = 0;
     uid_t uid;
     gid_t gid;
 
     uid = geteuid();
     gid = getegid();
 
-    if(proc->uid >= 0 && proc->uid != uid) {
-        dax_log(DAX_LOG_MINOR, "Changing user id to %d process %s", proc->uid, proc->name);
-        result = setuid(proc->uid);
-        if(result) {
-            dax_log(DAX_LOG_ERROR, "Unable to set uid %d - %s", proc->uid, strerror(errno));
-        }
-    }
     if(proc->gid >= 0 && proc->gid != gid) {
         dax_log(DAX_LOG_MINOR, "Changing group id to %d process %s", proc->gid, proc->name);
         result = setgid(proc->gid);
         if(result) {
             dax_log(DAX_LOG_ERROR, "Unable to set gid %d - %s", proc->gid, strerror(errno));
+            fails++;
         }
     }
+    if(proc->uid >= 0 && proc->uid != uid) {
+        dax_log(DAX_LOG_MINOR, "Changing user id to %d process %s", proc->uid, proc->name);
+        if(uid == 0) {
+            /* Our own supplementary groups are not for this user */
+            gid = getegid();
+            if(setgroups(1, &gid)) {
+                dax_log(DAX_LOG_ERROR, "Unable to set groups of process %s - %s", proc->name, strerror(errno));
+                fails++;
+            }
+        }
+        result = setuid(proc->uid);
+        if(result) {
+            dax_log(DAX_LOG_ERROR, "Unable to set uid %d - %s", proc->uid, strerror(errno));
+            fails++;
+        }
+    }
+    return uid == 0 ? fails : 0;
 }
 
 /* This function is used to start a module */
@@ -272,6 +288,13 @@ process_start(dax_process *proc)
 
     if(proc) { /* We are the parent */
         if(result) dax_log(DAX_LOG_ERROR,"Unable to properly set up pipes for %s\n", proc->name);
+        if(proc->uid < 0 || proc->gid < 0) {
+            dax_log(DAX_LOG_ERROR, "Process %s not started, its user or group is not known", proc->name);
+            return 0;
+        }
+        /* We will be dead if this doesn't work */
+        proc->state = PSTATE_DEAD;
+        gettimeofday(&proc->deadtime, NULL);
         child_pid = fork();
         if(child_pid > 0) { /* This is the parent */
             proc->pid = child_pid;
@@ -283,11 +306,12 @@ process_start(dax_process *proc)
             return child_pid;
         } else if(child_pid == 0) { /* Child */
             /* TODO: Environment???? */
-            _set_user_group(proc);
+            if(_set_user_group(proc)) _exit(EPERM);
             if(execvp(proc->path, proc->arglist)) {
+                result = errno;
                 dax_log(DAX_LOG_ERROR, "process_start exec failed - %s - %s",
-                       proc->path, strerror(errno));
-                exit(errno);
+                       proc->path, strerror(result));
+                _exit(result);
             }
         } else { /* Error on the fork */
             dax_log(DAX_LOG_ERROR, "process_start fork failed - %s - %s", proc->path, strerror(errno));
-- 
2.43.0


From eb20b2a8c15bd69f421a5ceb24ce29d789279aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:56 +0000
Subject: [PATCH 46/64] fix: master: every dead process is noticed, all
 processes end with the master

---
 src/master/master.c  | 30 +++++++++------------
 src/master/process.c | 64 +++++++++++++++++++++++++-------------------
 src/master/process.h |  8 +++---
 3 files changed, 53 insertions(+), 49 deletions(-)

diff --git a/src/master/master.c b/src/master/master.c
index 0c418ac..e1544ca 100644
--- a/src/master/master.c
+++ b/src/master/master.c
@@ -27,7 +27,8 @@
 #include <sys/wait.h>
 #include <opendax.h>
 
-static int quitflag = 0;
+static volatile sig_atomic_t quitflag = 0;
+static volatile sig_atomic_t caughtflag = 0;
 
 void child_signal(int);
 void quit_signal(int);
@@ -83,12 +84,15 @@ main(int argc, const char *argv[])
         } else {
             sleep(1);
         }
+        if(caughtflag) {
+            dax_log(DAX_LOG_MINOR, "Master received signal %d", (int)caughtflag);
+            caughtflag = 0;
+        }
         /* If the quit flag is set then we clean up and get out */
         if(quitflag) {
-            dax_log(DAX_LOG_MAJOR, "Master quiting due to signal %d", quitflag);
-            /* TODO: Should stop all running modules and wait for them
-               to exit.  If they fail then kill -9 those rascals*/
-            kill(0, SIGTERM); /* ...this'll do for now */
+            dax_log(DAX_LOG_MAJOR, "Master quiting due to signal %d", (int)quitflag);
+            kill(0, SIGTERM); /* This gets whatever our processes have started */
+            process_stop_all();
             closelog();
             exit(-1);
         }
@@ -111,22 +115,14 @@ quit_signal(int sig)
 void
 catch_signal(int sig)
 {
-    // TODO: No printfs in signal handlers
-    dax_log(DAX_LOG_MINOR, "Master received signal %d", sig);
+    caughtflag = sig;
 }
 
 
-/* Clean up any child modules that have shut down */
+/* This only has to get us out of the sleep in the main loop.  The child
+   modules that have shut down are cleaned up by process_scan() */
 void
 child_signal(int sig)
 {
-    int status;
-    pid_t pid;
-
-    do {
-        pid = waitpid(-1, &status, WNOHANG);
-        if(pid > 0) {
-            process_dpq_add(pid, status);
-        }
-    } while(pid > 0);
+    ;
 }
diff --git a/src/master/process.c b/src/master/process.c
index d637274..ef3b8b7 100644
--- a/src/master/process.c
+++ b/src/master/process.c
@@ -23,16 +23,10 @@
 #include <common.h>
 #include <opendax.h>
 #include <sys/time.h>
+#include <sys/wait.h>
 #include <unistd.h>
 #include <signal.h>
 
-/* This array is the dead process list.
-   TODO: This should be improved to allow it to grow when needed.
-*/
-#ifndef DPQ_SIZE
-  #define DPQ_SIZE 10
-#endif
-static dead_process _dpq[DPQ_SIZE];
 static dax_process *_process_list = NULL;
 
 #ifdef HAVE_PROCDIR
@@ -384,9 +378,9 @@ _process_get_cpu_stat(dax_process *proc)
         return errno;
     }
     result = fscanf(f, "%d %*s %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu %*d %*d %*d %*d %*d %*d %*u %*u %ld", &pid, &utime, &stime, &rss);
+    fclose(f);
     if(result < 4) return -1;
     ptime = utime + stime;
-    fclose(f);
     /* Now read and parse the cpu stat file */
     f = fopen("/proc/stat", "r");
     if(f == NULL) {
@@ -446,18 +440,16 @@ _process_restart(dax_process *proc)
 int
 process_scan(void)
 {
-    int n, restart, interval;
-    long runtime;
+    int restart, status;
+    long runtime, interval;
+    pid_t pid;
     dax_process *this;
     struct timeval now;
     static unsigned int count;
 
-    /* Check the dead module queue for pid's that need cleaning */
-    for(n = 0; n < DPQ_SIZE; n++) {
-        if(_dpq[n].pid != 0) {
-            _cleanup_process(_dpq[n].pid, _dpq[n].status);
-            _dpq[n].pid = 0;
-        }
+    /* Clean up all of the processes that have died */
+    while((pid = waitpid(-1, &status, WNOHANG)) > 0) {
+        _cleanup_process(pid, status);
     }
 
     this = _process_list;
@@ -477,7 +469,7 @@ process_scan(void)
                     restart = this->restartdelay - interval;
                 }
             }
-        } else {
+        } else if(this->pid > 0) {
             /* approximately every minute we'll get cpu stats and deal with
              * the processes that misbehave.  We add the pid so that we don't
              * do every process in the same scan */
@@ -522,19 +514,37 @@ process_stop(dax_process *proc)
     return 0;
 }
 
-/* Adds the dead module to the first blank spot in the list.  If the list
-   is overflowed then it'll just overwrite the last one.
-   TODO: If more than DMQ_SIZE modules dies all at once this will cause
-         problems.  Should be fixed. */
+/* Ends all of the processes and waits for them.  The ones that have not gone
+   after STOP_TIMEOUT mSec are killed */
 void
-process_dpq_add(pid_t pid, int status)
+process_stop_all(void)
 {
-    int n = 0;
-    while(_dpq[n].pid != 0 && n < DPQ_SIZE) {
-        n++;
+    dax_process *this;
+    struct timespec delay = {0, 10000000};
+    int status, left, n;
+    pid_t pid;
+
+    for(n = 0; n < STOP_TIMEOUT / 10; n++) {
+        while((pid = waitpid(-1, &status, WNOHANG)) > 0) {
+            _cleanup_process(pid, status);
+        }
+        left = 0;
+        for(this = _process_list; this != NULL; this = this->next) {
+            if(this->pid > 0) {
+                left++;
+                /* The rest of them already know */
+                if(n == 0 && getpgid(this->pid) != getpgrp()) kill(this->pid, SIGTERM);
+            }
+        }
+        if(left == 0) return;
+        nanosleep(&delay, NULL);
+    }
+    for(this = _process_list; this != NULL; this = this->next) {
+        if(this->pid > 0) {
+            dax_log(DAX_LOG_ERROR, "Killing process %s [%d]", this->name, this->pid);
+            kill(this->pid, SIGKILL);
+        }
     }
-    _dpq[n].pid = pid;
-    _dpq[n].status = status;
 }
 
 void
diff --git a/src/master/process.h b/src/master/process.h
index 7bb1f4e..0047fdf 100644
--- a/src/master/process.h
+++ b/src/master/process.h
@@ -77,16 +77,14 @@ typedef struct dax_process {
     struct dax_process *next;
 } dax_process;
 
-typedef struct {
-    pid_t pid;
-    int status;
-} dead_process;
+/* How long we wait for the processes to end by themselves when we quit, mS */
+#define STOP_TIMEOUT 10000
 
 void process_init(void);
 void process_start_all(void);
 pid_t process_start(dax_process *);
 int process_scan(void);
-void process_dpq_add(pid_t, int);
+void process_stop_all(void);
 dax_process *process_add(char *name, char *path, char *arglist, unsigned int flags);
 void _print_process_list(void);
 
-- 
2.43.0


From f6afbec557f0cf7b70c38f6fcacff677894ec3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:28 +0000
Subject: [PATCH 47/64] fix: daxlua: a TIME trigger's value has 64 bits

---
 src/modules/daxlua/threads.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/daxlua/threads.c b/src/modules/daxlua/threads.c
index 302e732..349f5c6 100644
--- a/src/modules/daxlua/threads.c
+++ b/src/modules/daxlua/threads.c
@@ -370,7 +370,6 @@ _convert_lua_number(tag_type datatype, dax_type_union *dest, lua_Number x) {
             return;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             dest->dax_udint = (dax_udint)x;
             return;
         case DAX_DINT:
@@ -381,6 +380,7 @@ _convert_lua_number(tag_type datatype, dax_type_union *dest, lua_Number x) {
             dest->dax_ulint = (dax_ulint)x;
             return;
         case DAX_LINT:
+        case DAX_TIME:
             dest->dax_lint = (dax_lint)x;
             return;
         case DAX_REAL:
-- 
2.43.0


From b83144b3e84ff676d5c38f793a16cf7fdc978729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:28 +0000
Subject: [PATCH 48/64] fix: master: read the process statistics of programs
 whose name has spaces

---
 src/master/process.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/master/process.c b/src/master/process.c
index ef3b8b7..56d7eae 100644
--- a/src/master/process.c
+++ b/src/master/process.c
@@ -367,7 +367,9 @@ _process_get_cpu_stat(dax_process *proc)
     FILE *f;
     char filename[128];
     char line[1024];
-    int pid, result;
+    char *str;
+    size_t len;
+    int result;
     unsigned long utime, stime, ptime, etime, times[4];
     long rss;
 
@@ -377,9 +379,15 @@ _process_get_cpu_stat(dax_process *proc)
         dax_log(DAX_LOG_ERROR, "Unable to open file %s", filename);
         return errno;
     }
-    result = fscanf(f, "%d %*s %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu %*d %*d %*d %*d %*d %*d %*u %*u %ld", &pid, &utime, &stime, &rss);
+    len = fread(line, 1, sizeof(line) - 1, f);
     fclose(f);
-    if(result < 4) return -1;
+    line[len] = '\0';
+    /* The name of the program is in parentheses and it can have anything in it
+     * so we start at what comes after it. */
+    str = strrchr(line, ')');
+    if(str == NULL) return -1;
+    result = sscanf(str + 1, " %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu %*d %*d %*d %*d %*d %*d %*u %*u %ld", &utime, &stime, &rss);
+    if(result < 3) return -1;
     ptime = utime + stime;
     /* Now read and parse the cpu stat file */
     f = fopen("/proc/stat", "r");
-- 
2.43.0


From d14d10dc0d6abaf467b43dbfc30eb45c0319b724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:22 +0000
Subject: [PATCH 49/64] fix: daxlua: shift BOOL trigger data to the first bit
 of the trigger tag

---
 src/modules/daxlua/scripts.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/modules/daxlua/scripts.c b/src/modules/daxlua/scripts.c
index 5b20214..1116d57 100644
--- a/src/modules/daxlua/scripts.c
+++ b/src/modules/daxlua/scripts.c
@@ -288,7 +288,8 @@ static int
 _receive_trigger(lua_State *L) {
     script_t *s;
     trigger_t *t;
-    void *data;
+    uint8_t *data, next;
+    int n;
 
     s = lua_touserdata(L, 1);
     t = s->script_trigger;
@@ -299,6 +300,14 @@ _receive_trigger(lua_State *L) {
     t->new_data = 0;
     pthread_mutex_unlock(&t->lock);
 
+    if(t->handle.type == DAX_BOOL && t->handle.bit != 0) {
+        /* The server sends the whole bytes that our bits are in */
+        for(n = 0; n < t->handle.size; n++) {
+            next = n + 1 < t->handle.size ? data[n + 1] : 0;
+            data[n] = data[n] >> t->handle.bit | next << (8 - t->handle.bit);
+        }
+    }
+
     daxlua_dax_to_lua(L, t->handle, data);
     lua_setglobal(L, "_trigger_data");
     return 0;
-- 
2.43.0


From a0e8778fa40c6795f50b105aaf7ef757d1416871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:22 +0000
Subject: [PATCH 50/64] fix: histlog: compare values as what they are to decide
 on a change

---
 src/modules/histlog/histlog.c | 57 +++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/src/modules/histlog/histlog.c b/src/modules/histlog/histlog.c
index 0e944b5..1cddfd8 100644
--- a/src/modules/histlog/histlog.c
+++ b/src/modules/histlog/histlog.c
@@ -33,46 +33,59 @@ static int _quitsignal;
 static double _flush_interval;
 extern tag_config *tag_list;
 
+/* Returns the distance between the two values no matter which one of them
+ * is the larger one */
+#define DIFF(T) (*(T *)data1 > *(T *)data2 ? (uint64_t)*(T *)data1 - (uint64_t)*(T *)data2 \
+                                           : (uint64_t)*(T *)data2 - (uint64_t)*(T *)data1)
+
 static int
 _test_difference(void *data1, void *data2, tag_type datatype, double threshold) {
+    double diff;
+
     switch(datatype) {
+        case DAX_BOOL:
+            diff = (*(uint8_t *)data1 ^ *(uint8_t *)data2) & 0x01;
+            break;
         case DAX_BYTE:
-            if(ABS(*(dax_byte *)data1 - *(dax_byte *)data2) >= threshold) return 1;
-            else return 0;
+            diff = DIFF(dax_byte);
+            break;
         case DAX_SINT:
         case DAX_CHAR:
-            if(ABS(*(dax_sint *)data1 - *(dax_sint *)data2) >= threshold) return 1;
-            else return 0;
+            diff = DIFF(dax_sint);
+            break;
         case DAX_UINT:
         case DAX_WORD:
-            if(ABS(*(dax_dint *)data1 - *(dax_dint *)data2) >= threshold) return 1;
-            else return 0;
+            diff = DIFF(dax_uint);
+            break;
         case DAX_INT:
-            if(ABS(*(dax_int *)data1 - *(dax_int *)data2) >= threshold) return 1;
-            else return 0;
+            diff = DIFF(dax_int);
+            break;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
-            if(ABS(*(dax_udint *)data1 - *(dax_udint *)data2) >= threshold) return 1;
-            else return 0;
+            diff = DIFF(dax_udint);
+            break;
         case DAX_DINT:
-            if(ABS(*(dax_dint *)data1 - *(dax_dint *)data2) >= threshold) return 1;
-            else return 0;
+            diff = DIFF(dax_dint);
+            break;
         case DAX_ULINT:
         case DAX_LWORD:
-            if(ABS(*(dax_ulint *)data1 - *(dax_ulint *)data2) >= threshold) return 1;
-            else return 0;
+            diff = DIFF(dax_ulint);
+            break;
         case DAX_LINT:
-            if(ABS(*(dax_lint *)data1 - *(dax_lint *)data2) >= threshold) return 1;
-            else return 0;
+        case DAX_TIME:
+            diff = DIFF(dax_lint);
+            break;
         case DAX_REAL:
-            if(ABS(*(dax_real *)data1 - *(dax_real *)data2) >= threshold) return 1;
-            else return 0;
+            diff = ABS((double)*(dax_real *)data1 - (double)*(dax_real *)data2);
+            break;
         case DAX_LREAL:
-            if(ABS(*(dax_lreal *)data1 - *(dax_lreal *)data2) >= threshold) return 1;
-            else return 0;
+            diff = ABS(*(dax_lreal *)data1 - *(dax_lreal *)data2);
+            break;
+        default:
+            return 0;
     }
-    return 0;
+    /* This way around it's also a change when one of them is not a number */
+    return !(diff < threshold);
 }
 
 
-- 
2.43.0


From 4ce295044f40b08081eb3d41bee6ae12c807d047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:22 +0000
Subject: [PATCH 51/64] fix: histlog: record the bit of a BOOL tag and not the
 byte that it is in

---
 src/modules/histlog/histlog.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules/histlog/histlog.c b/src/modules/histlog/histlog.c
index 1cddfd8..c7ecdd8 100644
--- a/src/modules/histlog/histlog.c
+++ b/src/modules/histlog/histlog.c
@@ -104,6 +104,9 @@ void _event_callback(dax_state *ds, void *udata) {
             dax_log(DAX_LOG_ERROR, "Unable to read tag: %s", tag->name);
             return;
         }
+    } else if(tag->h.type == DAX_BOOL) {
+        /* The server sends the whole byte that our bit is in */
+        buff[0] = (buff[0] >> tag->h.bit) & 0x01;
     }
     /* Check if we are old */
     if(tag->timeout > 0.0 && (now - tag->lasttimestamp) > tag->timeout) {
-- 
2.43.0


From 41839a889f69511b51189f252c414fc157cdec38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:22 +0000
Subject: [PATCH 52/64] fix: histlog: no gap mark right after the start, no
 marks for tags that were never found, no crash on bad configurations

---
 src/modules/histlog/histlog.c  |  9 ++++++---
 src/modules/histlog/histopts.c | 10 +++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/modules/histlog/histlog.c b/src/modules/histlog/histlog.c
index c7ecdd8..264b721 100644
--- a/src/modules/histlog/histlog.c
+++ b/src/modules/histlog/histlog.c
@@ -193,7 +193,8 @@ _add_tags(void) {
                     write_data(this->tag, NULL, hist_gettime());
                     /* Read the current tag data and write it to the plugin */
                     result = dax_read_tag(ds, this->h, buff);
-                    if(result == 0) write_data(this->tag, buff, hist_gettime());
+                    this->lasttimestamp = hist_gettime();
+                    if(result == 0) write_data(this->tag, buff, this->lasttimestamp);
                     else dax_log(DAX_LOG_ERROR, "Unable to read tag %s", this->name);
                     if(this->trigger == ON_CHANGE) {
                         /* Allocate the memory that we use to figure out and stored changed data */
@@ -265,13 +266,14 @@ main(int argc,char *argv[]) {
     result = plugin_load(dax_get_attr(ds, "plugin"));
     if(result) {
         dax_log(DAX_LOG_ERROR, "Unable to load a plugin");
-        kill(getpid(), SIGQUIT);
+        exit(-1);
     }
     _flush_interval = atof(dax_get_attr(ds, "flush_interval"));
     DF("flush interval set to %f", _flush_interval);
     /* Check for OpenDAX and register the module */
     if( dax_connect(ds) ) {
         dax_log(DAX_LOG_FATAL, "Unable to find OpenDAX");
+        exit(-1);
     }
 
     /* Let's say we're running */
@@ -322,7 +324,8 @@ getout(int exitstatus) {
     time_now = hist_gettime();
     this = tag_list;
     while(this != NULL) {
-        write_data(this->tag, NULL, time_now);
+        /* Tags that we have not found yet are not known to the plugin */
+        if(this->tag != NULL) write_data(this->tag, NULL, time_now);
         this = this->next;
     }
     flush_data();
diff --git a/src/modules/histlog/histopts.c b/src/modules/histlog/histopts.c
index 17d74b3..eac1b15 100644
--- a/src/modules/histlog/histopts.c
+++ b/src/modules/histlog/histopts.c
@@ -31,6 +31,7 @@ static int
 _add_tag(lua_State *L) {
     int arg_count;
     tag_config *tag;
+    const char *name, *attributes;
 
     arg_count = lua_gettop(L);
     if(arg_count < 5) {
@@ -38,17 +39,20 @@ _add_tag(lua_State *L) {
         return 0;
     }
 
+    name = luaL_checkstring(L, 1);
+    attributes = luaL_checkstring(L, 5);
     tag = malloc(sizeof(tag_config));
     if(tag == NULL) {
         luaL_error(L, "Unable to allocate tag configuration object");
         return 0;
     }
-    tag->name = strdup(lua_tolstring(L, 1, NULL));
+    tag->name = strdup(name);
+    tag->tag = NULL;
     tag->status = 0;
     tag->trigger = lua_tointeger(L, 2);
     tag->trigger_value = lua_tonumber(L, 3);
     tag->timeout = lua_tonumber(L, 4);
-    tag->attributes = strdup(lua_tolstring(L, 5, NULL));
+    tag->attributes = strdup(attributes);
     tag->cmpvalue = NULL;
     tag->lastvalue = NULL;
     tag->lasttimestamp = 0.0;
@@ -69,7 +73,7 @@ histlog_configure(int argc,char *argv[]) {
 
     flags = CFG_CMDLINE | CFG_MODCONF | CFG_ARG_REQUIRED;
     result += dax_add_attribute(ds, "plugin","plugin", 'p', flags, NULL);
-    result += dax_add_attribute(ds, "flush_interval","flush", 'f', flags, NULL);
+    result += dax_add_attribute(ds, "flush_interval","flush", 'f', flags, "1");
     L = dax_get_luastate(ds);
 
     /* Add globals to the Lua Configuration State. */
-- 
2.43.0


From be5f4d3a8031a3f632c203353bc68ccb75094cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:22 +0000
Subject: [PATCH 53/64] fix: histlog plugins: purge by the present time, keep
 the file when no new one can be opened, store all values and the types

---
 src/modules/histlog/plugins/file/dhl_file.c     | 10 ++++++++--
 src/modules/histlog/plugins/sqlite/dhl_sqlite.c | 16 +++++++++++-----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/modules/histlog/plugins/file/dhl_file.c b/src/modules/histlog/plugins/file/dhl_file.c
index 8b5b24d..5639d37 100644
--- a/src/modules/histlog/plugins/file/dhl_file.c
+++ b/src/modules/histlog/plugins/file/dhl_file.c
@@ -45,6 +45,9 @@ _open_file(void) {
 
     snprintf(filename, 256, "%s/dax_%f.log", log_directory, _gettime());
     log_file = fopen(filename, "a");
+    if(log_file == NULL) {
+        dax_log(DAX_LOG_ERROR, "Unable to open log file %s - %s", filename, strerror(errno));
+    }
 }
 
 int
@@ -86,6 +89,7 @@ init(dax_state *_ds) {
         dax_log(DAX_LOG_ERROR, "%s", strerror(errno));
     }
     _open_file();
+    if(log_file == NULL) return ERR_GENERIC;
     return 0;
 }
 
@@ -137,7 +141,7 @@ _add_tags(void) {
 }
 
 int
-flush_data(double time) {
+flush_data(void) {
     static int firstrun = 1;
 
     if(firstrun) {
@@ -146,9 +150,11 @@ flush_data(double time) {
     }
     if(rotate_flag) {
         dax_sint val = 0;
+        FILE *old_file = log_file;
         DF("rotate");
-        fclose(log_file);
         _open_file();
+        if(log_file == NULL) log_file = old_file; /* Better than nothing */
+        else fclose(old_file);
         dax_write_tag(ds, rotate_handle, &val); /* reset the command */
         rotate_flag = 0;
     }
diff --git a/src/modules/histlog/plugins/sqlite/dhl_sqlite.c b/src/modules/histlog/plugins/sqlite/dhl_sqlite.c
index ab9481a..da21d59 100644
--- a/src/modules/histlog/plugins/sqlite/dhl_sqlite.c
+++ b/src/modules/histlog/plugins/sqlite/dhl_sqlite.c
@@ -121,7 +121,7 @@ init(dax_state *_ds) {
     dax_log(DAX_LOG_DEBUG, "Purge interval set to %f", purge_interval);
     lua_pop(L, 1);
 
-    _open_file();
+    if(_open_file()) return ERR_GENERIC;
     _build_database(log_db);
     return 0;
 }
@@ -145,7 +145,7 @@ add_tag(const char *tagname, uint32_t type, const char *attributes) {
     tag->name = tagname;
     tag->type = type;
 
-    snprintf(sql, 256, "INSERT INTO Tags('tagname', 'type') VALUES ('%s', 2)", tagname);
+    snprintf(sql, 256, "INSERT INTO Tags('tagname', 'type') VALUES ('%s', %u)", tagname, type);
     result = sqlite3_exec(log_db, sql, NULL, 0, &errorMsg);
     if(result == SQLITE_CONSTRAINT) {
         dax_log(DAX_LOG_DEBUG, "Tag %s already exists in the database", tagname); // TODO: Check that the type is the same and error out otherwise
@@ -176,6 +176,7 @@ free_tag(tag_object *tag) {
 int
 write_data(tag_object *tag, void *value, double timestamp) {
     char val_string[128];
+    char *quoted;
     char *errorMsg = NULL;
     int result;
     char sql[256];
@@ -184,7 +185,12 @@ write_data(tag_object *tag, void *value, double timestamp) {
         snprintf(sql, 256, "INSERT INTO Data ('tagid', 'timestamp') VALUES (%d, %f);", tag->tag_index, timestamp);
     } else {
         dax_val_to_string(val_string, 128, tag->type, value, 0);
-        snprintf(sql, 256, "INSERT INTO Data ('tagid', 'timestamp', 'data') VALUES (%d, %f, %s);", tag->tag_index, timestamp, val_string);
+        /* Not all of the values are numbers.  The affinity of the column
+         * makes numbers of those that are. */
+        quoted = sqlite3_mprintf("%Q", val_string);
+        if(quoted == NULL) return ERR_ALLOC;
+        snprintf(sql, 256, "INSERT INTO Data ('tagid', 'timestamp', 'data') VALUES (%d, %f, %s);", tag->tag_index, timestamp, quoted);
+        sqlite3_free(quoted);
     }
     result = sqlite3_exec(log_db, sql, _add_tag_callback, &tag->tag_index, &errorMsg);
     if( result != SQLITE_OK ){
@@ -200,7 +206,7 @@ _add_tags(void) {
 }
 
 int
-flush_data(double time) {
+flush_data(void) {
     int result;
     static int firstrun = 1;
     char *errorMsg = NULL;
@@ -211,7 +217,7 @@ flush_data(double time) {
         firstrun = 0;
     }
     if(purge_interval > 0.0) {
-        snprintf(sql, 256, "DELETE FROM Data WHERE timestamp < %f;", time - purge_interval);
+        snprintf(sql, 256, "DELETE FROM Data WHERE timestamp < %f;", _gettime() - purge_interval);
 
         result = sqlite3_exec(log_db, sql, NULL, 0, &errorMsg);
         if( result != SQLITE_OK ){
-- 
2.43.0


From 8cb2e302ab596b9aa27989b256fce2bc02c1206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:22 +0000
Subject: [PATCH 54/64] fix: mqtt: size of the arrays of subscriptions and
 publishers, no crash on values that are not strings

---
 src/modules/mqtt/mqttopts.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/modules/mqtt/mqttopts.c b/src/modules/mqtt/mqttopts.c
index db5fe8a..ab4363a 100644
--- a/src/modules/mqtt/mqttopts.c
+++ b/src/modules/mqtt/mqttopts.c
@@ -50,6 +50,7 @@ _get_new_sub(void)
         ns = realloc(subscribers, sizeof(subscriber_t) * (subscriber_size * 2));
         if(ns != NULL) {
             subscribers = ns;
+            subscriber_size *= 2;
         } else {
             dax_log(DAX_LOG_ERROR, "Failure to allocate additional subscriptions");
             return -1;
@@ -90,7 +91,7 @@ _add_sub(lua_State *L) {
     if( lua_isnil(L, -1)) {
         luaL_error(L, "Topic is required for subscription");
     } else {
-        s = lua_tostring(L, -1);
+        s = luaL_checkstring(L, -1);
         subscribers[idx].topic = strdup(s);
     }
     lua_pop(L, 1);
@@ -108,9 +109,9 @@ _add_sub(lua_State *L) {
 
             for(i = 0; i < len; i++) {
                 lua_geti(L, -1, i+1);
-                s = lua_tostring(L, -1);
-                lua_pop(L, 1);
+                s = luaL_checkstring(L, -1);
                 subscribers[idx].tagnames[i] = strdup(s);
+                lua_pop(L, 1);
             }
             subscribers[idx].tag_count = len;
         } else if(lua_isstring(L, -1)) {
@@ -166,6 +167,7 @@ _get_new_pub(void)
         ns = realloc(publishers, sizeof(publisher_t) * (publisher_size * 2));
         if(ns != NULL) {
             publishers = ns;
+            publisher_size *= 2;
         } else {
             dax_log(DAX_LOG_ERROR, "Failure to allocate additional publishers");
             return -1;
@@ -211,7 +213,7 @@ _add_pub(lua_State *L)
     if( lua_isnil(L, -1)) {
         luaL_error(L, "Topic is required for publisher");
     } else {
-        s = lua_tostring(L, -1);
+        s = luaL_checkstring(L, -1);
         publishers[idx].topic = strdup(s);
     }
     lua_pop(L, 1);
@@ -236,9 +238,9 @@ _add_pub(lua_State *L)
 
             for(i = 0; i < len; i++) {
                 lua_geti(L, -1, i+1);
-                s = lua_tostring(L, -1);
-                lua_pop(L, 1);
+                s = luaL_checkstring(L, -1);
                 publishers[idx].tagnames[i] = strdup(s);
+                lua_pop(L, 1);
             }
             publishers[idx].tag_count = len;
         } else if(lua_isstring(L, -1)) {
@@ -273,7 +275,7 @@ _add_pub(lua_State *L)
 
     lua_getfield(L, 1, "trigger_tag");
     if(! lua_isnil(L, -1)) {
-        s = lua_tostring(L, -1);
+        s = luaL_checkstring(L, -1);
         publishers[idx].trigger_tag = strdup(s);
         if(publishers[idx].trigger_tag == NULL) {
             luaL_error(L, "Unable to allocate space for format string");
@@ -299,7 +301,7 @@ _add_pub(lua_State *L)
 
     lua_getfield(L, 1, "trigger_value");
     if(! lua_isnil(L, -1)) {
-        publishers[idx].trigger_value = strdup(lua_tostring(L, -1));
+        publishers[idx].trigger_value = strdup(luaL_checkstring(L, -1));
 
     }
     lua_pop(L, 1);
-- 
2.43.0


From 87974a244b57d3d54e2c7867844f210d42b3810b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:22 +0000
Subject: [PATCH 55/64] fix: mqtt: match received topics with wildcards as MQTT
 defines them

---
 src/modules/mqtt/mqttopts.c | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/modules/mqtt/mqttopts.c b/src/modules/mqtt/mqttopts.c
index ab4363a..ffb690b 100644
--- a/src/modules/mqtt/mqttopts.c
+++ b/src/modules/mqtt/mqttopts.c
@@ -381,33 +381,25 @@ get_sub_iter(void) {
    the wildcard characters '+' and '#' */
 static int
 _topic_compare(char *subscription, char *received) {
-    char cs, cr;
     int i=0, j=0;
 
-    while(1) {
-        cs = subscription[i];
-        cr = received[j];
-        if(cs == '+') {
+    while(subscription[i] != '\0') {
+        if(subscription[i] == '#') {
+            return 0; /* Wildcard character so the rest doesn't matter */
+        }
+        if(subscription[i] == '+') {
             i++; /* skip the '+' */
             /* Now we need to roll past the next sub topic to either the next '/'
                or the end of the string */
-            while(cr != '/' && cr != '\0') {
-                cr = received[++j];
-            }
-        } else if(cs != cr) {
+            while(received[j] != '/' && received[j] != '\0') j++;
+        } else if(received[j] == '\0') {
+            /* 'topic/#' matches 'topic' as well */
+            return strcmp(&subscription[i], "/#") ? -1 : 0;
+        } else if(subscription[i++] != received[j++]) {
             return -1; /* No match */
         }
-        if(cs == '\0' && cr == '\0') {
-            return 0; /* We have a winner */
-        }
-        if(cs == '/' && subscription[i+1] == '#') {
-            return 0; /* Wildcard character so the rest doesn't matter */
-        }
-        /* else if they are the same then continue on */
-        i++;
-        j++;
     }
-
+    return received[j] == '\0' ? 0 : -1;
 }
 
 /* return a pointer to the subscription that matches the topic */
-- 
2.43.0


From 93b6c30d0114778a91db8062eae4858d8b47b49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:22 +0000
Subject: [PATCH 56/64] fix: mqtt: subscribe with the configured QoS and again
 after a reconnection, use the credentials, write nothing after a bad filter,
 lock the Lua state

---
 src/modules/mqtt/mqtt.c | 90 ++++++++++++++++++++++++++++++++---------
 1 file changed, 72 insertions(+), 18 deletions(-)

diff --git a/src/modules/mqtt/mqtt.c b/src/modules/mqtt/mqtt.c
index 6c8336a..17c9f3c 100644
--- a/src/modules/mqtt/mqtt.c
+++ b/src/modules/mqtt/mqtt.c
@@ -21,6 +21,7 @@
 
 #include "mqtt.h"
 #include <MQTTClient.h>
+#include <pthread.h>
 #include <libdaxlua.h>
 
 
@@ -29,7 +30,10 @@ static void getout(int exitstatus);
 
 dax_state *ds;
 static int _quitsignal;
-static int _connected = 0;
+static volatile int _connected = 0;
+/* The messages come in on a thread of the MQTT library.  This protects the Lua
+ * state and the enabled flags of the subscribers */
+static pthread_mutex_t _lock = PTHREAD_MUTEX_INITIALIZER;
 
 MQTTClient client;
 MQTTClient_connectOptions conn_opts = MQTTClient_connectOptions_initializer;
@@ -54,10 +58,11 @@ msgarrived(void *context, char *topicName, int topicLen, MQTTClient_message *mes
 
     dax_log(DAX_LOG_PROTOCOL, "Message arrived on topic '%s'", topicName);
 
+    pthread_mutex_lock(&_lock);
     sub = get_sub(topicName);
     if(sub != NULL) {
-
         L = dax_get_luastate(ds);
+        result = 0;
 
         if(sub->filter != 0) { /* We need to run our filter function */
             lua_settop(L, 0); /* Delete the stack */
@@ -67,8 +72,10 @@ msgarrived(void *context, char *topicName, int topicLen, MQTTClient_message *mes
             lua_pushlstring(L, message->payload, message->payloadlen);
             if(lua_pcall(L, 2, 1, 0) != LUA_OK) {
                 dax_log(DAX_LOG_ERROR, "filter funtion for %s - %s", topicName, lua_tostring(L, -1));
+                result = ERR_GENERIC;
             } else { /* Success */
                 if(sub->tag_count == 1) {
+                    memset(sub->mask, 0x00, sub->buff_size);
                     result = daxlua_lua_to_dax(L, sub->h[0], sub->buff, sub->mask);
                     if(result) {
                         dax_log(DAX_LOG_LOGICERR, "Problem converting Lua value to tag for topic %s: %d", sub->topic, result);
@@ -78,15 +85,24 @@ msgarrived(void *context, char *topicName, int topicLen, MQTTClient_message *mes
                        an array returned from the filter function that contains the
                        values for the tags. */
                     offset = 0;
-                    for(int n=0;n<sub->tag_count;n++) {
+                    if(! lua_istable(L, 1)) {
+                        result = ERR_ARG;
+                    } else {
+                        /* The filter may leave out some elements of an array */
+                        result = dax_group_read(ds, sub->group, sub->buff, sub->buff_size);
+                    }
+                    for(int n=0;n<sub->tag_count && result == 0;n++) {
                         if(lua_rawgeti(L, 1, n+1) != LUA_TNIL) {
                             result = daxlua_lua_to_dax(L, sub->h[n], &((uint8_t *)sub->buff)[offset], &((uint8_t *)sub->mask)[offset]);
                             offset += sub->h[n].size;
                         } else {
-                            dax_log(DAX_LOG_LOGICERR, "Filter didn't return the right kind of data for %s", sub->topic);
+                            result = ERR_ARG;
                         }
                         lua_pop(L, 1);
                     }
+                    if(result) {
+                        dax_log(DAX_LOG_LOGICERR, "Filter didn't return the right kind of data for %s", sub->topic);
+                    }
                 }
             }
         } else {
@@ -100,10 +116,17 @@ msgarrived(void *context, char *topicName, int topicLen, MQTTClient_message *mes
             memcpy(sub->buff, message->payload, size);
         }
 
-        if(sub->group != NULL) { /* We are using a tag group */
-            dax_group_write(ds, sub->group, sub->buff);
-        } else { /* just one tag */
-            dax_write_tag(ds, sub->h[0], sub->buff);
+        if(result == 0 && sub->group != NULL) { /* We are using a tag group */
+            result = dax_group_write(ds, sub->group, sub->buff);
+        } else if(result == 0 && sub->tag_count == 1) { /* just one tag */
+            if(sub->filter != 0) {
+                result = dax_mask_tag(ds, sub->h[0], sub->buff, sub->mask);
+            } else {
+                result = dax_write_tag(ds, sub->h[0], sub->buff);
+            }
+        }
+        if(result) {
+            dax_log(DAX_LOG_WARN, "Message on topic %s not written: %d", topicName, result);
         }
     } else {
         /* This is a bad error and it means that we have a problem with how we are finding
@@ -111,6 +134,7 @@ msgarrived(void *context, char *topicName, int topicLen, MQTTClient_message *mes
         dax_log(DAX_LOG_ERROR, "We received topic '%s' with no subscription match", topicName);
     }
 
+    pthread_mutex_unlock(&_lock);
     MQTTClient_freeMessage(&message);
     MQTTClient_free(topicName);
     return 1;
@@ -123,6 +147,38 @@ connlost(void *context, char *cause)
     _connected = 0;
 }
 
+/* Ask the broker for the topic of a subscriber that is ready to be used */
+static void
+send_subscription(subscriber_t *sub) {
+    int result;
+
+    result = MQTTClient_subscribe(client, sub->topic, sub->qos);
+    if(result == MQTTCLIENT_SUCCESS) {
+        dax_log(DAX_LOG_DEBUG, "Subscribed to %s", sub->topic);
+    } else {
+        dax_log(DAX_LOG_WARN, "Unable to subscribe to %s", sub->topic);
+        /* If we lost the connection then this is tried again with the next one */
+        if(result != MQTTCLIENT_DISCONNECTED && result != MQTTCLIENT_FAILURE) {
+            pthread_mutex_lock(&_lock);
+            sub->enabled = ENABLE_FAIL; /* Can't recover from this */
+            pthread_mutex_unlock(&_lock);
+        }
+    }
+}
+
+/* We ask for a clean session so the broker does not remember our
+ * subscriptions when the connection is lost */
+static void
+renew_subscriptions(void) {
+    subscriber_t *sub;
+
+    while((sub = get_sub_iter()) != NULL) {
+        if(sub->enabled == ENABLE_GOOD) {
+            send_subscription(sub);
+        }
+    }
+}
+
 /* Setup one subscriber and subscribe.  Returns a 1 if we are still not
  * properly initialized.  The parent counts these and will continue to
  * try these until they either all work or some kind of permanent failure
@@ -175,14 +231,11 @@ subscribe(subscriber_t *sub) {
         }
         sub->buff_size = sub->h[0].size;
     }
-    result = MQTTClient_subscribe(client, sub->topic, 0);
-    if(result != MQTTCLIENT_SUCCESS) {
-        dax_log(DAX_LOG_WARN, "Unable to subscribe to %s", sub->topic);
-        sub->enabled = ENABLE_FAIL; /* Can't recover from this */
-    } else {
-        sub->enabled = ENABLE_GOOD; /* We're rolling now */
-        dax_log(DAX_LOG_DEBUG, "Subscribed to %s", sub->topic);
-    }
+    /* The broker may send the first message before the subscribe function returns */
+    pthread_mutex_lock(&_lock);
+    sub->enabled = ENABLE_GOOD; /* We're rolling now */
+    pthread_mutex_unlock(&_lock);
+    send_subscription(sub);
     return 0;
 }
 
@@ -389,6 +442,8 @@ client_loop(void) {
     attr = dax_get_attr(ds, "broker_timeout");
     conn_opts.connectTimeout = atoi(attr);
     conn_opts.cleansession = 1;
+    conn_opts.username = dax_get_attr(ds, "username");
+    conn_opts.password = dax_get_attr(ds, "password");
     MQTTClient_setCallbacks(client, NULL, connlost, msgarrived, delivered);
 
     while(1) {
@@ -402,8 +457,7 @@ client_loop(void) {
                 dax_log(DAX_LOG_MINOR, "Connection successful");
                 _connected = 1;
                 connect_cycle = 1;
-                //bad_subs = setup_subscribers();
-                //setup_publishers();
+                renew_subscriptions();
             }
             cycle_count = 0;
         }
-- 
2.43.0


From e75f1efb39c0145151bbf59497e306ddcaafe050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:22 +0000
Subject: [PATCH 57/64] fix: mqtt: publish nothing after a failed read or
 filter, whole arrays, publishers without tags, wait for tags that come late

---
 src/modules/mqtt/mqtt.c | 64 +++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 25 deletions(-)

diff --git a/src/modules/mqtt/mqtt.c b/src/modules/mqtt/mqtt.c
index 17c9f3c..a805c4b 100644
--- a/src/modules/mqtt/mqtt.c
+++ b/src/modules/mqtt/mqtt.c
@@ -264,12 +264,15 @@ publish_callback(dax_state *ds, void *udata) {
     int result;
     int offset;
     const char *data;
+    char *copy = NULL;
     size_t len;
     lua_State *L;
 
     L = dax_get_luastate(ds);
 
-    if(pub->tag_count == 1) {
+    if(pub->tag_count == 0) {
+        result = 0;
+    } else if(pub->tag_count == 1) {
         result = dax_read_tag(ds, pub->h[0], pub->buff);
         if(result) {
             dax_log(DAX_LOG_WARN, "Unable to read tag %s for topic %s", pub->tagnames[0], pub->topic);
@@ -282,6 +285,7 @@ publish_callback(dax_state *ds, void *udata) {
     }
 
     if(pub->filter != 0) { /* We need to run our filter function */
+        pthread_mutex_lock(&_lock);
         lua_settop(L, 0); /* Delete the stack */
         /* Get the filter function from the registry and push it onto the stack */
         lua_rawgeti(L, LUA_REGISTRYINDEX, pub->filter);
@@ -309,18 +313,26 @@ publish_callback(dax_state *ds, void *udata) {
         }
         if(lua_pcall(L, 2, 1, 0) != LUA_OK) {
             dax_log(DAX_LOG_WARN, "filter funtion for %s - %s", pub->topic, lua_tostring(L, -1));
+            pthread_mutex_unlock(&_lock);
+            return;
         }
         /* The data that is supposed to be published should have been returned by the filter function */
         data = lua_tolstring(L, 1, &len);
-        if(data != NULL) {
-            result = MQTTClient_publish(client, pub->topic, len, data, pub->qos, pub->retained, NULL);
+        if(data != NULL) { /* Publishing can wait for the thread that the messages arrive on */
+            copy = malloc(len + 1);
+            if(copy != NULL) memcpy(copy, data, len);
+        }
+        pthread_mutex_unlock(&_lock);
+        if(copy != NULL) {
+            result = MQTTClient_publish(client, pub->topic, len, copy, pub->qos, pub->retained, NULL);
+            free(copy);
             if(result != MQTTCLIENT_SUCCESS) {
                 dax_log(DAX_LOG_ERROR, "Unable to publish data to %s", pub->topic);
             }
         } else {
             dax_log(DAX_LOG_WARN, "Bad return value from filter on topic %s", pub->topic);
         }
-    } else { /* No filter function so we just do a raw binary copy */
+    } else if(result == 0) { /* No filter function so we just do a raw binary copy */
         result = MQTTClient_publish(client, pub->topic, pub->buff_size, pub->buff, pub->qos, pub->retained, NULL);
         if(result != MQTTCLIENT_SUCCESS) {
             dax_log(DAX_LOG_ERROR, "Unable to publish data to %s", pub->topic);
@@ -334,9 +346,6 @@ publish(publisher_t *pub) {
     dax_type_union val;
     tag_handle h;
 
-    /* We'll set this for now in case we have an error in here somewhere */
-    pub->enabled = ENABLE_FAIL;
-
     if(pub->tag_count == 0 && pub->filter == 0) {
         dax_log(DAX_LOG_WARN, "No tags or filter function given for topic %s", pub->topic);
         pub->enabled = ENABLE_FAIL; /* Can't recover from this */
@@ -349,30 +358,37 @@ publish(publisher_t *pub) {
         }
         /* Now search through the tagnames and get handles for all of the tags */
         for(int n=0;n<pub->tag_count;n++) {
-            result = dax_tag_handle(ds, &pub->h[n], pub->tagnames[n], 1);
+            result = dax_tag_handle(ds, &pub->h[n], pub->tagnames[n], 0);
             if(result) {
                 dax_log(DAX_LOG_WARN, "Unable to add tag %s to publisher", pub->tagnames[n]);
                 return 1;
             }
         }
     }
-    /* TODO: How should errors be handled here */
+    result = dax_tag_handle(ds, &h, pub->trigger_tag, 0);
+    if(result) {
+        dax_log(DAX_LOG_WARN, "Unable to find trigger tag %s for topic %s", pub->trigger_tag, pub->topic);
+        return 1;
+    }
+    /* From here on we can't recover */
+    pub->enabled = ENABLE_FAIL;
+
     if(pub->tag_count > 1) {
         pub->group = dax_group_add(ds, &result, pub->h, pub->tag_count, 0);
         if(result) {
             dax_log(DAX_LOG_WARN, "Unable to create tag group - %d", result);
-            return 1;
+            return 0;
         }
         pub->buff = malloc(dax_group_get_size(pub->group));
         if(pub->buff == NULL) {
             dax_log(DAX_LOG_WARN, "Unable to allocate tag data buffer");
-            return 1;
+            return 0;
         }
         /* Having a mask makes the Lua to Dax conversion easier */
         pub->mask = malloc(dax_group_get_size(pub->group));
         if(pub->mask == NULL) {
             dax_log(DAX_LOG_WARN, "Unable to allocate tag data mask");
-            return 1;
+            return 0;
         }
         pub->buff_size = dax_group_get_size(pub->group);
     } else if(pub->tag_count == 1) { /* We just have the one tag */
@@ -380,29 +396,27 @@ publish(publisher_t *pub) {
         pub->buff = malloc(pub->h[0].size);
         if(pub->buff == NULL) {
             dax_log(DAX_LOG_WARN, "Unable to allocate tag data buffer");
-            return 1;
+            return 0;
         }pub->mask = malloc(pub->h[0].size);
         if(pub->mask == NULL) {
             dax_log(DAX_LOG_WARN, "Unable to allocate tag data mask");
-            return 1;
+            return 0;
         }
         pub->buff_size = pub->h[0].size;
     }
-    result = dax_tag_handle(ds, &h, pub->trigger_tag, 1);
-    if(result) {
-        dax_log(DAX_LOG_WARN, "Unable to find trigger tag %s for topic %s", pub->trigger_tag, pub->topic);
-        return 1;
-    }
-
-    result = dax_string_to_val(pub->trigger_value, h.type, &val, NULL, 0);
-    if(result) {
-        dax_log(DAX_LOG_WARN, "Problem converting trigger value %s for topic %s", pub->trigger_value, pub->topic);
-        return 1;
+    /* The other event types don't use the value */
+    if(pub->trigger_type == EVENT_EQUAL || pub->trigger_type == EVENT_GREATER ||
+       pub->trigger_type == EVENT_LESS || pub->trigger_type == EVENT_DEADBAND) {
+        result = dax_string_to_val(pub->trigger_value, h.type, &val, NULL, 0);
+        if(result) {
+            dax_log(DAX_LOG_WARN, "Problem converting trigger value %s for topic %s", pub->trigger_value, pub->topic);
+            return 0;
+        }
     }
     result = dax_event_add(ds, &h, pub->trigger_type, &val, &pub->trigger_id, publish_callback, pub, NULL);
     if(result) {
         dax_log(DAX_LOG_WARN, "Problem adding event for topic %s", pub->topic);
-        return 1;
+        return 0;
     }
 
     dax_log(DAX_LOG_DEBUG, "Set to publish to %s", pub->topic);
-- 
2.43.0


From 861c86c603831995e44f2d6b0e034e6be9af2633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:22 +0000
Subject: [PATCH 58/64] fix: mqtt: leave out a subscription whose tag group
 cannot be created

---
 src/modules/mqtt/mqtt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/mqtt/mqtt.c b/src/modules/mqtt/mqtt.c
index a805c4b..9bbe52b 100644
--- a/src/modules/mqtt/mqtt.c
+++ b/src/modules/mqtt/mqtt.c
@@ -210,6 +210,8 @@ subscribe(subscriber_t *sub) {
         sub->group = dax_group_add(ds, &result, sub->h, sub->tag_count, 0);
         if(result) {
             dax_log(DAX_LOG_WARN, "Unable to create tag group - %d", result);
+            sub->enabled = ENABLE_FAIL;
+            return 0;
         }
         sub->buff = malloc(dax_group_get_size(sub->group));
         if(sub->buff == NULL) {
-- 
2.43.0


From a6f943d04eb9d86526a4b2e39c44950b80a008ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:22 +0000
Subject: [PATCH 59/64] fix: mqtt: a short message changes only the data that
 it contains

---
 src/modules/mqtt/mqtt.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/modules/mqtt/mqtt.c b/src/modules/mqtt/mqtt.c
index 9bbe52b..99f114e 100644
--- a/src/modules/mqtt/mqtt.c
+++ b/src/modules/mqtt/mqtt.c
@@ -111,6 +111,13 @@ msgarrived(void *context, char *topicName, int topicLen, MQTTClient_message *mes
             if(message->payloadlen != sub->buff_size) {
                 dax_log(DAX_LOG_WARN, "Message payload is not the same size as the buffer");
             }
+            if(message->payloadlen < sub->buff_size) { /* We don't change what isn't in the message */
+                if(sub->group != NULL) {
+                    result = dax_group_read(ds, sub->group, sub->buff, sub->buff_size);
+                } else {
+                    result = dax_read_tag(ds, sub->h[0], sub->buff);
+                }
+            }
             size = MIN(message->payloadlen, sub->buff_size);
             /* TODO we could avoid this memory copy if we know the payload is big enough */
             memcpy(sub->buff, message->payload, size);
-- 
2.43.0


From 094e50aa359d6488b15217aa7b8fcf284a2c67ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:48 +0000
Subject: [PATCH 60/64] fix: daxc: long command lines overflowed the token
 array, scripts repeated or split lines

---
 src/modules/daxc/daxc.c | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/modules/daxc/daxc.c b/src/modules/daxc/daxc.c
index 09608e1..68b139f 100644
--- a/src/modules/daxc/daxc.c
+++ b/src/modules/daxc/daxc.c
@@ -48,13 +48,12 @@ _str_daxtok(char *input) {
 
     if(input != NULL) {
         token = input;
-        start = input;
-        lastchar = '\0';
-    } else {
-        start = token;
-        if(*token =='\0') {
-            start = NULL;
-        }
+    }
+    lastchar = '\0';
+    while(*token == ' ') token++; /* More than one space is not an empty token */
+    start = token;
+    if(*token =='\0') {
+        start = NULL;
     }
     while(*token != '\0') {
         if(inQuote) {
@@ -290,9 +289,13 @@ runcmd(char *instr)
         }
     }
 
+    if(tcount == 0) { /* nothing but spaces */
+        free(temp);
+        return 0;
+    }
     /* Now that we know how many tokens we can allocate the array
      * We get one more than needed so that we can add the NULL */
-    tokens = malloc(sizeof(char *) * tcount+1);
+    tokens = malloc(sizeof(char *) * (tcount+1));
 
     if(tokens == NULL) {
         fprintf(stderr, "ERROR: Unable to allocate memory\n");
@@ -376,27 +379,28 @@ runcmd(char *instr)
     }
 
     free(tokens);
+    free(temp);
     return result;
 }
 
 int
 runfile(char *filename)
 {
-    char string[LINE_BUFF_SIZE];
+    char *string = NULL;
+    size_t size = 0;
     FILE *file;
-    int len;
 
     file = fopen(filename, "r");
     if(file == NULL) {
         fprintf(stderr, "ERROR: Unable to open file - %s\n", filename);
         return -1;
     }
-    while(!feof(file)) {
-        fgets(string, LINE_BUFF_SIZE, file);
-        len = strlen(string);
-        if(string[len-1] == '\n') string[len-1] = '\0';
+    while(getline(&string, &size, file) >= 0) {
+        string[strcspn(string, "\n")] = '\0';
         runcmd(string);
     }
+    free(string);
+    fclose(file);
     return 0;
 }
 
-- 
2.43.0


From 348504020bd922b37e2fdbcf11c0d3c20a714eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:48 +0000
Subject: [PATCH 61/64] fix: daxc: deleting a tag without a name crashed,
 failed lookups acted on a random tag

---
 src/modules/daxc/daxc_tag.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/modules/daxc/daxc_tag.c b/src/modules/daxc/daxc_tag.c
index 6d72844..894045c 100644
--- a/src/modules/daxc/daxc_tag.c
+++ b/src/modules/daxc/daxc_tag.c
@@ -131,6 +131,10 @@ tag_del(char **tokens)
     dax_tag temp_tag;
     int result;
 
+    if(tokens[0] == NULL) {
+        fprintf(stderr, "ERROR: No tagname given\n");
+        return 1;
+    }
     if(isdigit(tokens[0][0])) {
         result = dax_tag_byindex(ds, &temp_tag, atoi(tokens[0]));
     } else {
@@ -146,6 +150,9 @@ tag_del(char **tokens)
     } else if(result == ERR_DELETED) {
         fprintf(stderr, "ERROR: Tag was already deleted\n");
         return 1;
+    } else if(result) {
+        fprintf(stderr, "ERROR: Unable to find tag %s\n", tokens[0]);
+        return 1;
     }
     result = dax_tag_del(ds, temp_tag.idx);
     if(result == ERR_ILLEGAL) {
@@ -440,6 +447,7 @@ tag_write(char **tokens, int tcount) {
         bzero(buff, handle.size);
         memcpy(buff, (void *)tokens[1], MIN(count, handle.size));
         result = dax_write_tag(ds, handle, buff);
+        free(buff);
     } else {
         result = dax_tag_handle(ds, &handle, name, tcount-1);
         if(result) {
@@ -466,7 +474,12 @@ tag_write(char **tokens, int tcount) {
         if(handle.type == DAX_BOOL) use_mask = 1;
         for(n = 0; n < points; n++) {
             if(strncmp(tokens[n+1], "~", 1)) {
-                dax_string_to_val(tokens[n + 1], handle.type, buff, mask, n);
+                if(dax_string_to_val(tokens[n + 1], handle.type, buff, mask, n)) {
+                    fprintf(stderr, "ERROR: %s is not a valid value\n", tokens[n + 1]);
+                    free(buff);
+                    free(mask);
+                    return ERR_ARG;
+                }
             } else {
                 use_mask = 1; /* If we skipped any then we need to use the masked write */
             }
@@ -662,6 +675,7 @@ override_add(char **tokens, int count)
         bzero(buff, handle.size);
         memcpy(buff, (void *)tokens[1], MIN(count, handle.size));
         result = dax_tag_add_override(ds, handle, buff);
+        free(buff);
     } else {
         result = dax_tag_handle(ds, &handle, name, count-1);
         if(result) {
@@ -687,7 +701,12 @@ override_add(char **tokens, int count)
         }
         for(n = 0; n < points; n++) {
             if(strncmp(tokens[n+1], "~", 1)) {
-                dax_string_to_val(tokens[n + 1], handle.type, buff, mask, n);
+                if(dax_string_to_val(tokens[n + 1], handle.type, buff, mask, n)) {
+                    fprintf(stderr, "ERROR: %s is not a valid value\n", tokens[n + 1]);
+                    free(buff);
+                    free(mask);
+                    return ERR_ARG;
+                }
             }
         }
         result = dax_tag_add_override(ds, handle, buff);
@@ -729,6 +748,7 @@ override_set(char **tokens, int count)
     result = dax_tag_handle(ds, &handle, name, 0);
     if(result) {
         fprintf(stderr, "ERROR: Unable to retrieve tag %s code = %d\n", name, result);
+        return result;
     }
 
     result = dax_tag_set_override(ds, handle);
@@ -759,6 +779,7 @@ override_clr(char **tokens, int count)
     result = dax_tag_handle(ds, &handle, name, 0);
     if(result) {
         fprintf(stderr, "ERROR: Unable to retrieve tag %s code = %d\n", name, result);
+        return result;
     }
 
     result = dax_tag_clr_override(ds, handle);
@@ -789,6 +810,7 @@ override_del(char **tokens, int count)
     result = dax_tag_handle(ds, &handle, name, 0);
     if(result) {
         fprintf(stderr, "ERROR: Unable to retrieve tag %s code = %d\n", name, result);
+        return result;
     }
 
     result = dax_tag_del_override(ds, handle);
-- 
2.43.0


From ca72e81685a8f164d5e21f2a517ef4b2e37e593c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:48 +0000
Subject: [PATCH 62/64] fix: daxc: inc without a value did nothing, bad values
 performed the operation, xnor did xor

---
 src/modules/daxc/daxc_tag.c | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/modules/daxc/daxc_tag.c b/src/modules/daxc/daxc_tag.c
index 894045c..194af7a 100644
--- a/src/modules/daxc/daxc_tag.c
+++ b/src/modules/daxc/daxc_tag.c
@@ -831,7 +831,7 @@ _get_atomic_op_type(char *op) {
     else if(!strncasecmp(op, "nor", 3)) return ATOMIC_OP_NOR;
     else if(!strncasecmp(op, "nand", 4)) return ATOMIC_OP_NAND;
     else if(!strncasecmp(op, "xor", 3)) return ATOMIC_OP_XOR;
-    else if(!strncasecmp(op, "xnor", 3)) return ATOMIC_OP_XOR;
+    else if(!strncasecmp(op, "xnor", 4)) return ATOMIC_OP_XNOR;
     else  return 0;
 }
 
@@ -883,39 +883,39 @@ atomic_op(char **tokens, int count)
             switch(handle.type) {
                 case DAX_BYTE:
                     *(dax_byte *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_SINT:
                 case DAX_CHAR:
                     *(dax_sint *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_UINT:
                 case DAX_WORD:
                     *(dax_uint *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_INT:
                     *(dax_int *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_UDINT:
                 case DAX_DWORD:
                 case DAX_TIME:
                     *(dax_udint *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_DINT:
                     *(dax_dint *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_ULINT:
                 case DAX_LWORD:
                     *(dax_ulint *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_LINT:
                     *(dax_lint *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_REAL:
                     *(dax_real *)buff = 1.0;
-                    return 0;
+                    break;
                 case DAX_LREAL:
                     *(dax_lreal *)buff = 1.0;
-                    return 0;
+                    break;
                 default:
                     fprintf(stderr, "ERROR: Bad type");
                     free(buff);
@@ -934,8 +934,13 @@ atomic_op(char **tokens, int count)
             points = handle.count;
         }
         for(n = 0; n < points; n++) {
-            if(strncmp(tokens[n+1], "~", 1)) {
-                dax_string_to_val(tokens[n + 2], handle.type, buff, mask, n);
+            if(strncmp(tokens[n+2], "~", 1)) {
+                if(dax_string_to_val(tokens[n + 2], handle.type, buff, mask, n)) {
+                    fprintf(stderr, "ERROR: %s is not a valid value\n", tokens[n + 2]);
+                    free(buff);
+                    free(mask);
+                    return ERR_ARG;
+                }
             }
         }
     }
-- 
2.43.0


From 163a7f1857eda55f8dac7e969f3e4c84bdfb40a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:48 +0000
Subject: [PATCH 63/64] fix: daxc: a type with a bad member was created without
 that member

---
 src/modules/daxc/daxc_tag.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/daxc/daxc_tag.c b/src/modules/daxc/daxc_tag.c
index 194af7a..044cef7 100644
--- a/src/modules/daxc/daxc_tag.c
+++ b/src/modules/daxc/daxc_tag.c
@@ -532,6 +532,8 @@ cdt_add(char **tokens, int tcount)
 
         if(result) {
             fprintf(stderr, "ERROR: Unable to add member %s\n", tokens[n]);
+            dax_cdt_free(type);
+            return result;
         }
     }
 
-- 
2.43.0


From dd54a51141bed82783a6cc71587de658d7a73f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:48 +0000
Subject: [PATCH 64/64] fix: daxc: time events lost their upper bits, the event
 list could be overrun and ran full

---
 src/modules/daxc/daxc_event.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/modules/daxc/daxc_event.c b/src/modules/daxc/daxc_event.c
index d046b56..0589878 100644
--- a/src/modules/daxc/daxc_event.c
+++ b/src/modules/daxc/daxc_event.c
@@ -37,7 +37,7 @@ _event_callback(dax_state *d, void *udata) {
     id = (dax_id *)udata;
 
     for(n = 0; n < MAX_EVENTS; n++) {
-        if(events[n].event.index == id->index && events[n].event.id == id->id) {
+        if(events[n].used && events[n].event.index == id->index && events[n].event.id == id->id) {
             if(!quiet_mode) {
                 printf("Event %d Received\n", n+1);
             } else {
@@ -69,7 +69,6 @@ _convert_data_str(tag_type datatype, dax_type_union *dest, char *str) {
             return;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             dest->dax_udint = (dax_udint)strtoul(str, NULL, 0);
             return;
         case DAX_DINT:
@@ -80,6 +79,7 @@ _convert_data_str(tag_type datatype, dax_type_union *dest, char *str) {
             dest->dax_ulint = (dax_ulint)strtoull(str, NULL, 0);
             return;
         case DAX_LINT:
+        case DAX_TIME:
             dest->dax_lint = (dax_lint)strtoll(str, NULL, 0);
             return;
         case DAX_REAL:
@@ -153,10 +153,11 @@ event_del(char **tokens)
         return -1;
     }
     index = strtol(tokens[0], NULL, 0) - 1;
-    if(index < 0 || index > MAX_EVENTS) {
-        fprintf(stderr, "ERROR: Event %d, is out of range\n", index);
+    if(index < 0 || index >= MAX_EVENTS || !events[index].used) {
+        fprintf(stderr, "ERROR: Event %d, is out of range\n", index + 1);
         return -1;
     }
+    events[index].used = 0;
     return dax_event_del(ds, events[index].event);
 }
 
-- 
2.43.0

