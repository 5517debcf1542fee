From 6489bbdf1ea677335e7c48672bb1dea82a309d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:01 +0000
Subject: [PATCH 01/72] fix: base64 decode never reads past the string and
 ignores whitespace anywhere

---
 src/onion/codecs.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 1e151c3..5db3342 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -72,8 +72,10 @@ static u_int8_t onion_base64_decode_get_next(const char **I){
     c = (int)**I;
   }
   // ONION_DEBUG("GET %c", (char)c);
+  if (c == '\0')                // Never go past the end of the string.
+    return 255;
   (*I)++;
-  return db64[c];
+  return (c < sizeof(db64)) ? db64[c] : 255;
 }
 
 /**
@@ -100,10 +102,15 @@ char *onion_base64_decode(const char *orig, int *length) {
   }
 
   int ol = 0;
+  int pad = 0;                  // '=' at the end, ignoring spaces
   for (I=orig; I <= endI; ++I){
     const char c = *I;
     if (c != '\n' && c != '\r' && c != ' '){
       ol++;
+      if (c != '=')
+        pad = 0;
+      else if (pad < 2)
+        pad++;
     }
   }
 
@@ -118,12 +125,13 @@ char *onion_base64_decode(const char *orig, int *length) {
 
   if (ol == 0){
     ONION_DEBUG("Empty base64 string.");
+    ret[0] = '\0';
     return ret;
   }
 
   I = orig;
   char *J = ret;
-  while (I < endI){
+  for (; ol > 0; ol -= 4){
     // ONION_DEBUG("I %p endI %p", I, endI);
     const u_int8_t c1 = onion_base64_decode_get_next(&I);
     const u_int8_t c2 = onion_base64_decode_get_next(&I);
@@ -139,11 +147,7 @@ char *onion_base64_decode(const char *orig, int *length) {
   *J = 0;
 
   // ONION_DEBUG("Two end? %c %c // ll %d, %d", *(I - 2), *(I - 1), max_length,  J - ret);
-  int ll = J - ret;
-  if (*(I - 2) == '=')
-    ll = ll - 2;
-  else if (*(I - 1) == '=')
-    ll = ll - 1;
+  int ll = (J - ret) - pad;
 
   ret[ll] = 0;
 
-- 
2.43.0


From 5052df36428b315ea670244532da9f29837d1b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:01 +0000
Subject: [PATCH 02/72] fix: URL unquote does not read past a truncated percent
 escape

---
 src/onion/codecs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 5db3342..cdebbb1 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -259,7 +259,7 @@ void onion_unquote_inplace(char *str) {
   char *w = str;
   char tmp[3] = { 0, 0, 0 };
   while (*r) {
-    if (*r == '%') {
+    if (*r == '%' && r[1] != '\0' && r[2] != '\0') {
       r++;
       tmp[0] = *r++;
       tmp[1] = *r;
-- 
2.43.0


From 618c337c44a38457be7a03dd5d058069ffd1188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:01 +0000
Subject: [PATCH 03/72] fix: onion_quote respects maxlength counting the quoted
 bytes

---
 src/onion/codecs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index cdebbb1..a5b61c5 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -305,13 +305,13 @@ int onion_quote(const char *str, char *res, int maxlength) {
   int l = strlen(str);
   int i;
   for (i = 0; i < l; i++) {
-    if (i >= maxlength)
+    if (nl + 1 >= maxlength)
       break;
     char c = str[i];
     if (is_alnum(c))
       res[nl++] = c;
     else {
-      if (i + 2 >= maxlength)
+      if (nl + 3 >= maxlength)
         break;
 
       res[nl++] = '%';
-- 
2.43.0


From dd6a8b1c87867ece6b6f16001075f728c44c3d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:01 +0000
Subject: [PATCH 04/72] fix: onion_html_quote_dup returns a copy when nothing
 needs quoting

---
 src/onion/codecs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index a5b61c5..2ac2528 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -529,7 +529,7 @@ const char *onion_html_quote_dup(const char *str) {
   if (quostr != NULL)
     return quostr;
   else
-    return onion_low_strdup(quostr);
+    return onion_low_strdup(str);
 }
 
 /**
-- 
2.43.0


From 005d5eb2a8912d171b2878a36ff8ef0c626ee1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:12 +0000
Subject: [PATCH 05/72] fix: onion_c_quote never writes past the given length
 and quotes carriage returns as \r

---
 src/onion/codecs.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 2ac2528..c97d7ad 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -352,6 +352,16 @@ char *onion_c_quote(const char *str, char *ret, int l) {
   *r++ = '"';
   l -= 3;                       // both " at start and end, and \0
   while (*p != '\0') {
+    int n = 1;                  // Bytes needed by this character
+    if (*p == '\n')
+      n = 5;
+    else if (*p == '\r' || *p == '"' || *p == '\\' || *p == '\t')
+      n = 2;
+    else if (*p > 127)
+      n = 4;
+    if (l < n)                  // does not fit!
+      break;
+    l -= n;
     if (*p == '\n') {
       *r = '\\';
       r++;
@@ -365,7 +375,7 @@ char *onion_c_quote(const char *str, char *ret, int l) {
     } else if (*p == '\r') {
       *r = '\\';
       r++;
-      *r = 'n';
+      *r = 'r';
     } else if (*p == '"') {
       *r = '\\';
       r++;
@@ -380,10 +390,6 @@ char *onion_c_quote(const char *str, char *ret, int l) {
       *r = 't';
     } else if (*p > 127) {
       int c = *p;
-      if (l < 4) {              // does not fit!
-        *r = '\0';
-        return ret;
-      }
       *r = '\\';
       r++;
       *r = '0' + ((c >> 6) & 0x03);
@@ -396,11 +402,6 @@ char *onion_c_quote(const char *str, char *ret, int l) {
     }
     r++;
     p++;
-    l--;
-    if (l <= 0) {
-      *r = '\0';
-      break;
-    }
   }
   *r++ = '"';
   *r++ = '\0';
-- 
2.43.0


From fd68061e73df98fcd1bf0f68d8781002a0df18de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:12 +0000
Subject: [PATCH 06/72] fix: JSON unquote stops at the end of the string and
 reports unterminated strings

---
 src/onion/codecs.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index c97d7ad..9d1cb4c 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -663,7 +663,7 @@ ssize_t onion_json_unquote_add(onion_block * block, const char *str) {
             if (data[0] != '\\' || data[1] != 'u')
               goto bad_utf16;
             uc2 = hex4(data + 2);
-            if (!uc || uc2 < 0xdc00 || uc2 > 0xdfff)
+            if (uc2 < 0xdc00 || uc2 > 0xdfff)
               goto bad_utf16;
             data += 6;
             uc = ((uc - 0xd7c0) << 10) | (uc2 & 0x3ff);
@@ -700,13 +700,14 @@ ssize_t onion_json_unquote_add(onion_block * block, const char *str) {
         continue;
       }
     }
-    if (!eos && !*data) {       // \0, expecting \" as eos
+    if (!*data) {               // \0, expecting \" as eos, or after \
       ONION_DEBUG("Expected \" got eof");
       return -1;
     }
     onion_block_add_char(block, *data);
     ++data;
   }
-  data++;
+  if (eos)                      // Skip the closing ", but never the \0
+    data++;
   return data - str;
 }
-- 
2.43.0


From e84f3a46e29b4d7592f2aefde50c3eb9c58a2db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:17 +0000
Subject: [PATCH 07/72] fix: removing one of several entries with the same dict
 key unlinks the right node

---
 src/onion/dict.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index fbbe6e5..d8db422 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -388,18 +388,27 @@ static void onion_dict_node_data_free(onion_dict_node_data * data) {
   }
 }
 
-/// AA tree remove the node
+/**
+ * @short AA tree remove the node
+ *
+ * When there are several nodes with the same key, edge<0 ensures the first of them is removed, edge>0 the
+ * last one, and 0 any of them.
+ */
 static onion_dict_node *onion_dict_node_remove(const onion_dict * d,
                                                onion_dict_node * node,
-                                               const char *key) {
+                                               const char *key, int edge) {
   if (!node)
     return NULL;
   int cmp = d->cmp(key, node->data.key);
+  if (cmp == 0 && edge < 0 && node->left)
+    cmp = -1;
+  else if (cmp == 0 && edge > 0 && node->right)
+    cmp = 1;
   if (cmp < 0) {
-    node->left = onion_dict_node_remove(d, node->left, key);
+    node->left = onion_dict_node_remove(d, node->left, key, edge);
     //ONION_DEBUG("%p[%s]->left=%p[%s]",node, node->data.key, node->left, node->left ? node->left->data.key : "NULL");
   } else if (cmp > 0) {
-    node->right = onion_dict_node_remove(d, node->right, key);
+    node->right = onion_dict_node_remove(d, node->right, key, edge);
     //ONION_DEBUG("%p[%s]->right=%p[%s]",node, node->data.key, node->right, node->right ? node->right->data.key : "NULL");
   } else {                      // Real remove
     //ONION_DEBUG("Remove here %p", node);
@@ -415,7 +424,7 @@ static onion_dict_node *onion_dict_node_remove(const onion_dict * d,
       //ONION_DEBUG("Set data from %p[%s] to %p[already deleted %s]",t,t->data.key, node, key);
       memcpy(&node->data, &t->data, sizeof(onion_dict_node_data));
       t->data.flags = 0;        // No double free later, please
-      node->right = onion_dict_node_remove(d, node->right, t->data.key);
+      node->right = onion_dict_node_remove(d, node->right, t->data.key, -1);
       //ONION_DEBUG("%p[%s]->right=%p[%s]",node, node->data.key, node->right, node->right ? node->right->data.key : "NULL");
     } else {
       onion_dict_node *t = node->left;  // Get prev key node
@@ -424,7 +433,7 @@ static onion_dict_node *onion_dict_node_remove(const onion_dict * d,
 
       memcpy(&node->data, &t->data, sizeof(onion_dict_node_data));
       t->data.flags = 0;        // No double free later, please
-      node->left = onion_dict_node_remove(d, node->left, t->data.key);
+      node->left = onion_dict_node_remove(d, node->left, t->data.key, 1);
       //ONION_DEBUG("%p[%s]->left=%p[%s]",node, node->data.key, node->left, node->left ? node->left->data.key : "NULL");
     }
   }
@@ -449,7 +458,7 @@ static onion_dict_node *onion_dict_node_remove(const onion_dict * d,
  * Returns if it removed any node.
  */
 int onion_dict_remove(onion_dict * dict, const char *key) {
-  dict->root = onion_dict_node_remove(dict, dict->root, key);
+  dict->root = onion_dict_node_remove(dict, dict->root, key, 0);
   return 1;
 }
 
-- 
2.43.0


From 794b2e4f88fadff7e8a0fd0918c0e6b3a61257ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:17 +0000
Subject: [PATCH 08/72] fix: onion_dict_remove returns whether it removed any
 node, as documented

---
 src/onion/dict.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index d8db422..0e00ca9 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -458,6 +458,8 @@ static onion_dict_node *onion_dict_node_remove(const onion_dict * d,
  * Returns if it removed any node.
  */
 int onion_dict_remove(onion_dict * dict, const char *key) {
+  if (!onion_dict_find_node(dict, dict->root, key, NULL))
+    return 0;
   dict->root = onion_dict_node_remove(dict, dict->root, key, 0);
   return 1;
 }
-- 
2.43.0


From c2c9ba32bc0a9986b71d345a1a41b3f87792358b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:24 +0000
Subject: [PATCH 09/72] fix: onion_dict_hard_dup keeps the case sensitivity of
 the dict

---
 src/onion/dict.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index 0e00ca9..1311960 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -172,6 +172,7 @@ void onion_dict_hard_dup_helper(onion_dict * dict, const char *key,
  */
 onion_dict *onion_dict_hard_dup(onion_dict * dict) {
   onion_dict *d = onion_dict_new();
+  d->cmp = dict->cmp;
   onion_dict_preorder(dict, onion_dict_hard_dup_helper, d);
   return d;
 }
-- 
2.43.0


From 11c3867b4dbc412d4dfe17dc83575de6394bbd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:11 +0000
Subject: [PATCH 10/72] fix: request tokens never grow past the token buffer
 when data arrives in small pieces

---
 src/onion/request_parser.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index e6aa933..5dd3d2c 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -105,8 +105,6 @@ int token_read_STRING(onion_token * token, onion_buffer * data) {
   char c = data->data[data->pos++];
   while (!is_space(c)) {
     token->str[token->pos++] = c;
-    if (data->pos >= data->size)
-      return OCS_NEED_MORE_DATA;
     if (token->pos >= (sizeof(token->str) - 1)) {
       char tmp[16];
       strncpy(tmp, token->str, 16);
@@ -116,6 +114,8 @@ int token_read_STRING(onion_token * token, onion_buffer * data) {
            token->pos);
       return OCS_INTERNAL_ERROR;
     }
+    if (data->pos >= data->size)
+      return OCS_NEED_MORE_DATA;
     c = data->data[data->pos++];
   }
   int ret;
@@ -148,14 +148,15 @@ int token_read_until(onion_token * token, onion_buffer * data, char delimiter) {
   while (c != delimiter && c != '\n') {
     if (c != '\r')              // Just ignore it here
       token->str[token->pos++] = c;
-    if (data->pos >= data->size) {
-      return OCS_NEED_MORE_DATA;
-    }
     if (token->pos >= (sizeof(token->str) - 1)) {
+      token->str[token->pos] = '\0';
       ONION_ERROR("Token too long to parse it. Part read is %s (%d bytes)",
                   token->str, token->pos);
       return OCS_INTERNAL_ERROR;
     }
+    if (data->pos >= data->size) {
+      return OCS_NEED_MORE_DATA;
+    }
     c = data->data[data->pos++];
   }
   int ret = STRING;
-- 
2.43.0


From d28449bb609153809f476ff86d4c36f94d10b5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:11 +0000
Subject: [PATCH 11/72] fix: folded headers keep their first line, never
 overrun the token and never swallow the next header

---
 src/onion/request_parser.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 5dd3d2c..2b6e142 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -213,10 +213,9 @@ int token_read_LINE(onion_token * token, onion_buffer * data) {
 
     c = data->data[data->pos++];
   }
-  if (token->str[token->pos - 1] == '\r')
-    token->str[token->pos - 1] = '\0';
-  else
-    token->str[token->pos] = '\0';
+  if (token->pos > 0 && token->str[token->pos - 1] == '\r')
+    token->pos--;
+  token->str[token->pos] = '\0';
   //token->pos=0;
 
   //ONION_DEBUG0("Found LINE token %s",token->str);
@@ -726,6 +725,10 @@ static onion_connection_status parse_headers_KEY(onion_request * req,
 static onion_connection_status parse_headers_VALUE(onion_request * req,
                                                    onion_buffer * data);
 
+static onion_connection_status
+parse_headers_VALUE_multiline_if_space(onion_request * req,
+                                       onion_buffer * data);
+
 static onion_connection_status
 parse_headers_VALUE_skip_leading_whitespace(onion_request * req,
                                             onion_buffer * data) {
@@ -733,10 +736,14 @@ parse_headers_VALUE_skip_leading_whitespace(onion_request * req,
     char peek = data->data[data->pos++];
     if (peek != '\t' && peek != ' ') {
       onion_token *token = req->parser_data;
-      if (peek == '\n')
+      if (peek == '\n') {        // Empty continuation line, the next one may be another continuation or a new header.
+        req->parser = parse_headers_VALUE_multiline_if_space;
         return OCS_NEED_MORE_DATA;
-      token->str[token->pos++] = ' ';
-      token->str[token->pos++] = peek;
+      }
+      if (token->pos < (sizeof(token->str) - 1))
+        token->str[token->pos++] = ' ';
+      if (token->pos < (sizeof(token->str) - 1))
+        token->str[token->pos++] = peek;
       req->parser = parse_headers_VALUE;
       return parse_headers_VALUE(req, data);
     }
-- 
2.43.0


From 301215f84f9027d1c4c65cd12cddb735a0b2ca05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:11 +0000
Subject: [PATCH 12/72] fix: a NUL byte after a header does not hang the
 request parser

---
 src/onion/request_parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 2b6e142..a13d948 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -754,12 +754,12 @@ parse_headers_VALUE_skip_leading_whitespace(onion_request * req,
 static onion_connection_status
 parse_headers_VALUE_multiline_if_space(onion_request * req,
                                        onion_buffer * data) {
-  char peek = token_peek_next_char(data);
-  ONION_DEBUG0("Multiline if space, peek %d", peek);
-  if (peek == 0) {
+  if (data->pos >= data->size) {
     req->parser = parse_headers_VALUE_multiline_if_space;
     return OCS_NEED_MORE_DATA;
   }
+  char peek = token_peek_next_char(data);
+  ONION_DEBUG0("Multiline if space, peek %d", peek);
   if (peek == ' ' || peek == '\t') {
     req->parser = parse_headers_VALUE_skip_leading_whitespace;
     return parse_headers_VALUE_skip_leading_whitespace(req, data);
-- 
2.43.0


From 2eeaa6f73f350022b141510140f2b1969e7935e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:11 +0000
Subject: [PATCH 13/72] fix: CR and LF of the request line may arrive in
 different reads

---
 src/onion/request_parser.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index a13d948..f6bfeba 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -299,7 +299,6 @@ int token_read_NEW_LINE(onion_token * token, onion_buffer * data) {
     else
       res = OCS_INTERNAL_ERROR;
   }
-  token->pos = 0;
 
   return res;
 }
-- 
2.43.0


From 9075ea7c6e400d84267b94b71efcc8a78cc3ffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:11 +0000
Subject: [PATCH 14/72] fix: multipart part names are copied exactly and
 accounted for in the post buffer

---
 src/onion/request_parser.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index f6bfeba..bde8977 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -568,42 +568,44 @@ static onion_connection_status parse_POST_multipart_content_type(onion_request *
   const char *name;
   name = strstr(token->str, "filename=");
   if (name) {
-    int l = strlen(token->str) - 9;
-    if (l > multipart->post_total_size) {
+    size_t l = strlen(name + 9);
+    if (l + 1 > multipart->post_total_size) {
       ONION_ERROR("Post buffer exhausted. content-Length wrong passed.");
       return OCS_INTERNAL_ERROR;
     }
+    multipart->post_total_size -= l + 1;
     multipart->filename = multipart->data;
     memcpy(multipart->filename, name + 9, l);
     multipart->filename[l] = 0;
     multipart->data = multipart->data + l + 1;
-    if (*multipart->filename == '"' && multipart->filename[l - 2] == '"') {
-      multipart->filename[l - 2] = '\0';
+    if (l >= 2 && *multipart->filename == '"'
+        && multipart->filename[l - 1] == '"') {
+      multipart->filename[l - 1] = '\0';
       multipart->filename++;
     }
     ONION_DEBUG0("Set filename '%s'", multipart->filename);
   } else {
     name = strstr(token->str, "name=");
     if (name) {
-      int l = strlen(token->str) - 5;
-      if (l > multipart->post_total_size) {
+      size_t l = strlen(name + 5);
+      if (l + 1 > multipart->post_total_size) {
         ONION_ERROR("Post buffer exhausted. Content-Length had wrong size.");
         return OCS_INTERNAL_ERROR;
       }
+      multipart->post_total_size -= l + 1;
       multipart->name = multipart->data;
       memcpy(multipart->name, name + 5, l);
       multipart->name[l] = 0;
-      if (*multipart->name == '"' && multipart->name[l - 2] == '"') {
-        l -= 2;
-        multipart->name[l] = '\0';
+      multipart->data = multipart->data + l + 1;
+      if (l >= 2 && *multipart->name == '"' && multipart->name[l - 1] == '"') {
+        multipart->name[l - 1] = '\0';
         multipart->name++;
       }
-      multipart->data = multipart->name + l + 1;
       ONION_DEBUG0("Set field name '%s'", multipart->name);
     }
   }
 
-  if (res == STRING_NEW_LINE) {
+  if (res != STRING) {          // End of the line
     req->parser = parse_POST_multipart_headers_key;
     return OCS_NEED_MORE_DATA;
   }
@@ -642,6 +644,10 @@ static onion_connection_status parse_POST_multipart_headers_key(onion_request *
     onion_multipart_buffer *multipart = (onion_multipart_buffer *) token->extra;
     multipart->pos = 0;
 
+    if (!multipart->name) {
+      ONION_ERROR("Multipart part without a name.");
+      return OCS_INTERNAL_ERROR;
+    }
     if (multipart->filename) {
       char filename[] = "/tmp/onion-XXXXXX";
       multipart->fd = mkstemp(filename);
@@ -1068,7 +1074,7 @@ static onion_connection_status prepare_POST(onion_request * req) {
   token->extra_size = cl;       // Max size of the multipart->data
   onion_multipart_buffer *multipart =
       onion_low_malloc(token->extra_size + sizeof(onion_multipart_buffer) +
-                       mp_token_size + 2);
+                       mp_token_size + 4 + 3);  // Boundary prefix, pad byte, and end of boundary and last data.
   assert(token->extra == NULL);
   token->extra = (char *)multipart;
 
@@ -1083,7 +1089,7 @@ static onion_connection_status prepare_POST(onion_request * req) {
   multipart->boundary[3] = '-';
   strcpy(&multipart->boundary[4], mp_token);
   multipart->data =
-      (char *)multipart + sizeof(onion_multipart_buffer) + multipart->size + 1;
+      (char *)multipart + sizeof(onion_multipart_buffer) + multipart->size + 2;
 
   //ONION_DEBUG("Multipart POST boundary '%s'",multipart->boundary);
 
-- 
2.43.0


From 050aa34a7113887b8b0cf312c3cdf16e38ee2a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:11 +0000
Subject: [PATCH 15/72] fix: multipart values keep their newlines and partial
 boundaries

---
 src/onion/request_parser.c | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index bde8977..445ce5d 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -498,20 +498,22 @@ static onion_connection_status parse_POST_multipart_data(onion_request * req,
   char *d = &multipart->data[token->pos];
 
   for (; data->pos < data->size; data->pos++) {
-    if (multipart->pos == 0 && *p == '\n')      // \r is optional.
-      multipart->pos = 1;
+    if (multipart->pos == 0) {
+      if (*p == '\n')           // \r is optional.
+        multipart->startpos = multipart->pos = 1;
+      else
+        multipart->startpos = 0;
+    }
     if (*p == multipart->boundary[multipart->pos]) {    // Check boundary
       multipart->pos++;
       if (multipart->pos == multipart->size) {
         multipart->pos = 0;
         data->pos++;            // Not sure why this is needed. FIXME.
-        if (token->pos > 0 && *(d - 1) == '\n') {
-          token->pos--;
-          d--;
+        if (multipart->post_total_size <= 0) {
+          ONION_ERROR("No space left for this post.");
+          return OCS_INTERNAL_ERROR;
         }
-        if (token->pos > 0 && *(d - 1) == '\r')
-          d--;
-
+        multipart->post_total_size--;
         *d = '\0';
         ONION_DEBUG0("Adding POST data '%s'", multipart->name);
         onion_dict_add(req->POST, multipart->name, multipart->data, 0);
@@ -522,15 +524,18 @@ static onion_connection_status parse_POST_multipart_data(onion_request * req,
       }
     } else {                    // No boundary
       if (multipart->pos != 0) {        // Maybe i was checking before... so I need to copy as much as I wrongly thought I got.
-        if (multipart->post_total_size <= multipart->pos) {
+        size_t r = multipart->pos - multipart->startpos;
+        if (multipart->post_total_size <= r) {
           ONION_ERROR("No space left for this post.");
           return OCS_INTERNAL_ERROR;
         }
-        multipart->post_total_size -= multipart->pos;
-        memcpy(d, p, multipart->pos);
-        d += multipart->pos;
-        token->pos += multipart->pos;
-        multipart->pos = 0;
+        multipart->post_total_size -= r;
+        memcpy(d, multipart->boundary + multipart->startpos, r);
+        d += r;
+        token->pos += r;
+        multipart->startpos = multipart->pos = 0;
+        data->pos--;            // Try again this character. May be start of boundary.
+        continue;
       }
       if (multipart->post_total_size <= 0) {
         ONION_ERROR("No space left for this post.");
-- 
2.43.0


From f240e96ee0ca929afa6a2a89c76db022df6cc427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:11 +0000
Subject: [PATCH 16/72] fix: the multipart file size limit counts each file
 byte once and is exact

---
 src/onion/request_parser.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 445ce5d..bc30a48 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -429,14 +429,16 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         return OCS_NEED_MORE_DATA;
       }
     } else {
+      int r = 1;                // How many bytes are found to be file data
+      if (multipart->pos != 0)
+        r = multipart->pos - multipart->startpos;
+      multipart->file_total_size += r;
       if (multipart->file_total_size >
           req->connection.listen_point->server->max_file_size) {
         ONION_ERROR("Files on this post too big. Aborting.");
         return OCS_INTERNAL_ERROR;
       }
       if (multipart->pos != 0) {
-        multipart->file_total_size += multipart->pos;
-        int r = multipart->pos - multipart->startpos;
         //ONION_DEBUG0("Write %d bytes",r);
         int w = write(multipart->fd, tmp, tmppos);
         if (w != tmppos) {
@@ -471,7 +473,6 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         tmppos = 0;
       }
     }
-    multipart->file_total_size++;
     p++;
   }
   int w = write(multipart->fd, tmp, tmppos);
-- 
2.43.0


From b07366cfccfb590886940bb0031a4d631c2dd23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:11 +0000
Subject: [PATCH 17/72] fix: huge Content-Length values are checked against the
 limit instead of overflowing

---
 src/onion/request_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index bc30a48..7b4d86f 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -823,7 +823,7 @@ static onion_connection_status parse_headers_KEY(onion_request * req,
     if ((req->flags & OR_METHODS) == OR_PUT)
       return prepare_PUT(req);
     if (onion_request_get_header(req, "Content-Length")) {      // Some length, not POST, get data.
-      int n = atoi(onion_request_get_header(req, "Content-Length"));
+      long n = atol(onion_request_get_header(req, "Content-Length"));
       if (n > 0)
         return prepare_CONTENT_LENGTH(req);
     }
-- 
2.43.0


From 898714e17f3b7f7ce14372d88c9823cca3f78c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:58 +0000
Subject: [PATCH 18/72] fix: uploads retry short writes and never leak their
 file descriptor

---
 src/onion/request_parser.c | 72 +++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 33 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 7b4d86f..fa2490e 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -61,6 +61,8 @@ typedef struct onion_token_s {
 
   char *extra;                  // Only used when need some previous data, like at header value, i need the key
   size_t extra_size;
+
+  int fd;                       // File where the body is being stored, or -1. It is closed when the parser data is freed.
 } onion_token;
 
 /// @private
@@ -88,7 +90,6 @@ typedef struct onion_multipart_buffer_s {
   char *filename;               /// point to a in data position
   size_t file_total_size;       /// Total size of all file read data
   size_t post_total_size;       /// Total size of post, to check limits
-  int fd;                       /// If file, the file descriptor.
 } onion_multipart_buffer;
 
 static void onion_request_parse_query_to_dict(onion_dict * dict, char *p);
@@ -303,6 +304,13 @@ int token_read_NEW_LINE(onion_token * token, onion_buffer * data) {
   return res;
 }
 
+/// Closes the file where data is being stored, if any.
+static void token_close_file(onion_token * token) {
+  if (token->fd >= 0)
+    close(token->fd);
+  token->fd = -1;
+}
+
 static char token_peek_next_char(onion_buffer * data) {
   if (data->pos >= data->size)
     return '\0';                // If not enought data, go to safe side.
@@ -361,18 +369,18 @@ static onion_connection_status parse_PUT(onion_request * req,
   }
   //ONION_DEBUG0("Writing %d. %d / %d bytes", length, token->pos+length, token->extra_size);
 
-  int *fd = (int *)token->extra;
-  ssize_t w = write(*fd, &data->data[data->pos], length);
-  if (w < 0) {
-    // cleanup
-    close(*fd);
-    onion_low_free(token->extra);
-    token->extra = NULL;
-    ONION_ERROR("Could not write all data to temporal file.");
-    return OCS_INTERNAL_ERROR;
+  while (length > 0) {          // write may not write everything at once.
+    ssize_t w = write(token->fd, &data->data[data->pos], length);
+    if (w <= 0) {
+      // cleanup
+      token_close_file(token);
+      ONION_ERROR("Could not write all data to temporal file.");
+      return OCS_INTERNAL_ERROR;
+    }
+    data->pos += w;
+    token->pos += w;
+    length -= w;
   }
-  data->pos += length;
-  token->pos += length;
 
 #if __DEBUG__
   const char *filename = onion_block_data(req->data);
@@ -380,9 +388,7 @@ static onion_connection_status parse_PUT(onion_request * req,
 #endif
 
   if (exit) {
-    close(*fd);
-    onion_low_free(token->extra);
-    token->extra = NULL;
+    token_close_file(token);
     return OCS_REQUEST_READY;
   }
 
@@ -416,15 +422,15 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         multipart->startpos = multipart->pos = 0;
         data->pos++;            // Not sure why this is needed. FIXME.
 
-        int w = write(multipart->fd, tmp, tmppos);
+        int w = write(token->fd, tmp, tmppos);
         if (w != tmppos) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
+          token_close_file(token);
           return OCS_INTERNAL_ERROR;
         }
 
-        close(multipart->fd);
+        token_close_file(token);
         req->parser = parse_POST_multipart_next;
         return OCS_NEED_MORE_DATA;
       }
@@ -440,20 +446,20 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
       }
       if (multipart->pos != 0) {
         //ONION_DEBUG0("Write %d bytes",r);
-        int w = write(multipart->fd, tmp, tmppos);
+        int w = write(token->fd, tmp, tmppos);
         if (w != tmppos) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
+          token_close_file(token);
           return OCS_INTERNAL_ERROR;
         }
         tmppos = 0;
 
-        w = write(multipart->fd, multipart->boundary + multipart->startpos, r);
+        w = write(token->fd, multipart->boundary + multipart->startpos, r);
         if (w != r) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
+          token_close_file(token);
           return OCS_INTERNAL_ERROR;
         }
         multipart->startpos = multipart->pos = 0;
@@ -463,11 +469,11 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
       //ONION_DEBUG0("Write 1 byte");
       tmp[tmppos++] = *p;
       if (tmppos == sizeof(tmp)) {
-        int w = write(multipart->fd, tmp, tmppos);
+        int w = write(token->fd, tmp, tmppos);
         if (w != tmppos) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
+          token_close_file(token);
           return OCS_INTERNAL_ERROR;
         }
         tmppos = 0;
@@ -475,11 +481,11 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
     }
     p++;
   }
-  int w = write(multipart->fd, tmp, tmppos);
+  int w = write(token->fd, tmp, tmppos);
   if (w != tmppos) {
     ONION_ERROR
         ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-    close(multipart->fd);
+    token_close_file(token);
     return OCS_INTERNAL_ERROR;
   }
   return OCS_NEED_MORE_DATA;
@@ -656,8 +662,8 @@ static onion_connection_status parse_POST_multipart_headers_key(onion_request *
     }
     if (multipart->filename) {
       char filename[] = "/tmp/onion-XXXXXX";
-      multipart->fd = mkstemp(filename);
-      if (multipart->fd < 0)
+      token->fd = mkstemp(filename);
+      if (token->fd < 0)
         ONION_ERROR("Could not create temporal file at %s.", filename);
       if (!req->FILES)
         req->FILES = onion_dict_new();
@@ -931,7 +937,9 @@ static onion_connection_status parse_headers_GET(onion_request * req,
 onion_connection_status onion_request_write(onion_request * req,
                                             const char *data, size_t size) {
   if (!req->parser_data) {
-    req->parser_data = onion_low_calloc(1, sizeof(onion_token));
+    onion_token *token = onion_low_calloc(1, sizeof(onion_token));
+    token->fd = -1;
+    req->parser_data = token;
     req->parser = parse_headers_GET;
   }
 
@@ -1177,11 +1185,8 @@ static onion_connection_status prepare_PUT(onion_request * req) {
     return OCS_REQUEST_READY;
   }
 
-  int *pfd = onion_low_scalar_malloc(sizeof(fd));
-  *pfd = fd;
-
   assert(token->extra == NULL);
-  token->extra = (char *)pfd;
+  token->fd = fd;
   token->extra_size = cl;
   token->pos = 0;
 
@@ -1195,6 +1200,7 @@ static onion_connection_status prepare_PUT(onion_request * req) {
 void onion_request_parser_data_free(void *t) {
   ONION_DEBUG0("Free parser data");
   onion_token *token = t;
+  token_close_file(token);
   if (token->extra) {
     onion_low_free(token->extra);
     token->extra = NULL;
-- 
2.43.0


From 2cad74734fba90f49d18ba84c5438ea8bad2f7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:00 +0000
Subject: [PATCH 19/72] fix: the cookie string is always released and a last
 cookie with empty value is kept

---
 src/onion/request.c | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index 00e0af3..5bb8322 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -686,11 +686,11 @@ onion_dict *onion_request_get_cookies_dict(onion_request * req) {
   if (!ccookies)
     return req->cookies;
   char *cookies = onion_low_strdup(ccookies);   // I prepare a temporary string, will modify it.
+  req->free_list = onion_ptr_list_add(req->free_list, cookies); // All keys and values point here.
   char *val = NULL;
   char *key = NULL;
   char *p = cookies;
 
-  int first = 1;
   while (*p) {
     if (*p != ' ' && !key && !val) {
       key = p;
@@ -699,25 +699,16 @@ onion_dict *onion_request_get_cookies_dict(onion_request * req) {
       val = p + 1;
     } else if (*p == ';' && key && val) {
       *p = 0;
-      if (first) {
-        // The first cookie is special as it is the pointer to the reserved area for all the keys and values
-        // for all th eother cookies, to free at dict free.
-        onion_dict_add(req->cookies, cookies, val, OD_FREE_KEY);
-        first = 0;
-      } else
-        onion_dict_add(req->cookies, key, val, 0);      /// Can use as static data as will be freed at first cookie free
-      ONION_DEBUG0("Add cookie <%s>=<%s> %d", key, val, first);
+      onion_dict_add(req->cookies, key, val, 0);        /// Can use as static data as will be freed with the request
+      ONION_DEBUG0("Add cookie <%s>=<%s>", key, val);
       val = NULL;
       key = NULL;
     }
     p++;
   }
-  if (key && val && val < p) {  // A final element, with value.
-    if (first)
-      onion_dict_add(req->cookies, cookies, val, OD_FREE_KEY);
-    else
-      onion_dict_add(req->cookies, key, val, 0);
-    ONION_DEBUG0("Add cookie <%s>=<%s> %d", key, val, first);
+  if (key && val) {             // A final element, with value.
+    onion_dict_add(req->cookies, key, val, 0);
+    ONION_DEBUG0("Add cookie <%s>=<%s>", key, val);
   }
 
   return req->cookies;
-- 
2.43.0


From 6324e7df8ba7be1e731821138c8f23360516340e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:59 +0000
Subject: [PATCH 20/72] fix: no double free when a form POST is cut before its
 end

---
 src/onion/request_parser.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index fa2490e..33ba317 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -732,7 +732,8 @@ static onion_connection_status parse_POST_urlencode(onion_request * req,
 
   req->POST = onion_dict_new();
   onion_request_parse_query_to_dict(req->POST, token->extra);
-  token->extra = NULL;          // At query to dict, it keeps the pointer and free it when POST is freed.
+  req->free_list = onion_ptr_list_add(req->free_list, token->extra);    // POST points into it. Free when the request is freed.
+  token->extra = NULL;
 
   return OCS_REQUEST_READY;
 }
@@ -1068,8 +1069,6 @@ static onion_connection_status prepare_POST(onion_request * req) {
     assert(token->extra == NULL);
     token->extra = onion_low_scalar_malloc(cl + 1);     // Cl + \0
     token->extra_size = cl;
-    req->free_list = onion_ptr_list_add(req->free_list, token->extra);  // Free when the request is freed.
-
     req->parser = parse_POST_urlencode;
     return OCS_NEED_MORE_DATA;
   }
-- 
2.43.0


From 3996a4e0e613103b92b9ccc181c7b674a8c1690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:11 +0000
Subject: [PATCH 21/72] fix: freeing a response with unsent data sends the
 headers before the data

---
 src/onion/response.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 20cc39a..da1565a 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -162,7 +162,7 @@ onion_connection_status onion_response_free(onion_response * res) {
   if (!(res->flags & OR_HEADER_SENT) && res->buffer_pos < sizeof(res->buffer))
     onion_response_set_length(res, res->buffer_pos);
 
-  if (!(res->flags & OR_HEADER_SENT))
+  if (!(res->flags & OR_HEADER_SENT) && res->buffer_pos == 0)  // If there is data, flush sends the headers before it.
     onion_response_write_headers(res);
 
   onion_response_flush(res);
-- 
2.43.0


From 629c933bebcbd7e6fd9944760f4728c14ecb47ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:11 +0000
Subject: [PATCH 22/72] fix: answering HEAD with a big write does not loop
 forever

---
 src/onion/response.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index da1565a..c7fe50d 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -416,8 +416,10 @@ int onion_response_flush(onion_response * res) {
     onion_response_write(res, tmpb, tmpp);
     return 0;
   }
-  if (res->flags & OR_SKIP_CONTENT)     // HEAD request
+  if (res->flags & OR_SKIP_CONTENT) {   // HEAD request
+    res->buffer_pos = 0;
     return 0;
+  }
   ONION_DEBUG0("Flush %d bytes", res->buffer_pos);
 
   onion_request *req = res->request;
-- 
2.43.0


From 3a9b47e76ed3bc8791e6b37a9cd84698ce5137cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:11 +0000
Subject: [PATCH 23/72] fix: room for every possible Content-Length

---
 src/onion/response.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index c7fe50d..9b10bdc 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -224,7 +224,7 @@ void onion_response_set_length(onion_response * res, size_t len) {
         ("Trying to set length after headers sent. Undefined onion behaviour.");
     return;
   }
-  char tmp[16];
+  char tmp[24];
   sprintf(tmp, "%lu", (unsigned long)len);
   onion_response_set_header(res, "Content-Length", tmp);
   res->length = len;
-- 
2.43.0


From 569d4ba25af3a366dfced9d34608e77de30982a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:11 +0000
Subject: [PATCH 24/72] fix: the session cookie header ends in CR LF as all the
 others

---
 src/onion/response.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 9b10bdc..10349c2 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -315,7 +315,7 @@ int onion_response_write_headers(onion_response * res) {
   onion_dict_preorder(res->headers, write_header, res);
 
   if (res->request->session_id && (onion_dict_count(res->request->session) > 0))        // I have session with something, tell user
-    onion_response_printf(res, "Set-Cookie: sessionid=%s; httponly; Path=/\n",
+    onion_response_printf(res, "Set-Cookie: sessionid=%s; httponly; Path=/\r\n",
                           res->request->session_id);
 
   onion_response_write(res, "\r\n", 2);
-- 
2.43.0


From 18f2d701eaf17dc08ad62346007ed049dd3ef550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:06 +0000
Subject: [PATCH 25/72] fix: the first flush of a response sends the data too,
 not only the headers

---
 src/onion/response.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 10349c2..a2714e3 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -414,7 +414,7 @@ int onion_response_flush(onion_response * res) {
 
     onion_response_write_headers(res);
     onion_response_write(res, tmpb, tmpp);
-    return 0;
+    return onion_response_flush(res);
   }
   if (res->flags & OR_SKIP_CONTENT) {   // HEAD request
     res->buffer_pos = 0;
-- 
2.43.0


From 90a4d46c4a24dd3b4c7fd4f9bd9af84f72c59db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:06 +0000
Subject: [PATCH 26/72] fix: chunked responses survive short writes, and a
 response that could not be written closes the connection

---
 src/onion/response.c | 44 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index a2714e3..d039c2b 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -45,6 +45,9 @@
 /// @defgroup response Response. Write response data to client: headers, content body...
 
 const char *onion_response_code_description(int code);
+static int onion_response_write_all(onion_request * req, const char *data,
+                                    size_t len);
+static int onion_response_write_failed(onion_response * res);
 
 // DONT_USE_DATE_HEADER is not defined anywhere, but here just in case needed in the future.
 
@@ -168,9 +171,9 @@ onion_connection_status onion_response_free(onion_response * res) {
   onion_response_flush(res);
   onion_request *req = res->request;
 
-  if (res->flags & OR_CHUNKED) {        // Set the chunked data end.
-    req->connection.listen_point->write(req, "0\r\n\r\n", 5);
-  }
+  if ((res->flags & OR_CHUNKED) && !(res->flags & OR_SKIP_CONTENT)      // Set the chunked data end.
+      && onion_response_write_all(req, "0\r\n\r\n", 5) < 0)
+    onion_response_write_failed(res);
 
   int r = OCS_CLOSE_CONNECTION;
 
@@ -390,6 +393,27 @@ ssize_t onion_response_write(onion_response * res, const char *data,
   return w;
 }
 
+/// Writes all the data to the connection, in as many writes as necessary. Returns <0 on error.
+static int onion_response_write_all(onion_request * req, const char *data,
+                                    size_t len) {
+  while (len > 0) {
+    ssize_t w = req->connection.listen_point->write(req, data, len);
+    if (w <= 0)
+      return -1;
+    data += w;
+    len -= w;
+  }
+  return 0;
+}
+
+/// The response is cut at this point: writes nothing more, and the connection has to be closed.
+static int onion_response_write_failed(onion_response * res) {
+  res->buffer_pos = 0;
+  res->flags |= OR_SKIP_CONTENT;
+  res->request->flags |= OR_NO_KEEP_ALIVE;
+  return OCS_CLOSE_CONNECTION;
+}
+
 /**
  * @short Writes all buffered output waiting for sending.
  * @ingroup response
@@ -432,13 +456,12 @@ int onion_response_flush(onion_response * res) {
   if (res->flags & OR_CHUNKED) {
     char tmp[16];
     snprintf(tmp, sizeof(tmp), "%X\r\n", (unsigned int)res->buffer_pos);
-    if ((w = write(req, tmp, strlen(tmp))) <= 0) {
+    if (onion_response_write_all(req, tmp, strlen(tmp)) < 0) {
       ONION_CALL_MAX_ONCE_PER_T_COUNT(1, ONION_WARNING, "Error writing chunk encoding length (%X) %s. Aborting write. (x%u)",
         (unsigned int)res->buffer_pos, strerror(errno));
       
-      return OCS_CLOSE_CONNECTION;
+      return onion_response_write_failed(res);
     }
-    ONION_DEBUG0("Write %d-%d bytes", res->buffer_pos, w);
   }
   int savederrno = errno;
   errno = 0;
@@ -447,16 +470,17 @@ int onion_response_flush(onion_response * res) {
     if (w <= 0 || res->buffer_pos < 0) {
       ONION_ERROR("Error writing %d bytes (%s). Maybe closed connection. Code %d. ",
                   res->buffer_pos, strerror(errno), w);
-      res->buffer_pos = 0;
       errno = savederrno;
-      return OCS_CLOSE_CONNECTION;
+      return onion_response_write_failed(res);
     }
     pos += w;
     ONION_DEBUG0("Write %d-%d bytes", res->buffer_pos, w);
     res->buffer_pos -= w;
   }
-  if (res->flags & OR_CHUNKED) {
-    write(req, "\r\n", 2);
+  if ((res->flags & OR_CHUNKED)
+      && onion_response_write_all(req, "\r\n", 2) < 0) {
+    errno = savederrno;
+    return onion_response_write_failed(res);
   }
   res->buffer_pos = 0;
   errno = savederrno;
-- 
2.43.0


From d4e93ebfc30ce98c8615cb42986fde881a6c32a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:24 +0000
Subject: [PATCH 27/72] fix: a response announced as ended by the connection
 close does close the connection

---
 src/onion/response.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index d039c2b..641f83d 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -308,8 +308,10 @@ int onion_response_write_headers(onion_response * res) {
   }
 
   if (!(res->flags & OR_LENGTH_SET) && !chunked
-      && !(res->flags & OR_CONNECTION_UPGRADE))
+      && !(res->flags & OR_CONNECTION_UPGRADE)) {
+    res->request->flags |= OR_NO_KEEP_ALIVE;    // Announced, so do it.
     onion_response_write(res, CONNECTION_CLOSE, sizeof(CONNECTION_CLOSE) - 1);
+  }
 
   if (res->flags & OR_CONNECTION_UPGRADE)
     onion_response_write(res, CONNECTION_UPGRADE,
-- 
2.43.0


From ddc944d6d7ed8277ba78e3db44d47d71a291fdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:34 +0000
Subject: [PATCH 28/72] fix: too long cookies are refused instead of
 overflowing the stack

---
 src/onion/response.c | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 641f83d..719fba3 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -628,6 +628,14 @@ onion_dict *onion_response_get_headers(onion_response * res) {
   return res->headers;
 }
 
+/// Adds name and value at pos, if still inside data, and returns the new pos: past size if it did not fit.
+static int cookie_add(char *data, int size, int pos, const char *name,
+                      const char *value) {
+  if (pos >= size)
+    return pos;
+  return pos + snprintf(data + pos, size - pos, "%s%s", name, value);
+}
+
 /**
  * @short Sets a new cookie into the response.
  * @ingroup response
@@ -655,35 +663,40 @@ bool onion_response_add_cookie(onion_response * res, const char *cookiename,
   int pos;
   pos = snprintf(data, sizeof(data), "%s=%s", cookiename, cookievalue);
   if (validity_t == 0)
-    pos +=
-        snprintf(data + pos, sizeof(data) - pos,
-                 "; expires=Thu, 01 Jan 1970 00:00:00 GMT");
+    pos =
+        cookie_add(data, sizeof(data), pos,
+                   "; expires=Thu, 01 Jan 1970 00:00:00 GMT", "");
   else if (validity_t > 0) {
+    char expires[64];
     struct tm *tmp;
     time_t t = time(NULL) + validity_t;
     tmp = localtime(&t);
-    pos +=
-        strftime(data + pos, sizeof(data) - pos,
-                 "; expires=%a, %d %b %Y %H:%M:%S %Z", tmp);
+    if (!tmp
+        || strftime(expires, sizeof(expires), "%a, %d %b %Y %H:%M:%S %Z",
+                    tmp) == 0) {
+      ONION_WARNING("Invalid cookie expiration. Not added to response.");
+      return false;
+    }
+    pos = cookie_add(data, sizeof(data), pos, "; expires=", expires);
   }
   if (path)
-    pos += snprintf(data + pos, sizeof(data) - pos, "; path=%s", path);
+    pos = cookie_add(data, sizeof(data), pos, "; path=", path);
   if (domain)
-    pos += snprintf(data + pos, sizeof(data) - pos, "; domain=%s", domain);
+    pos = cookie_add(data, sizeof(data), pos, "; domain=", domain);
   if (flags & OC_HTTP_ONLY)
-    pos += snprintf(data + pos, sizeof(data) - pos, "; HttpOnly");
+    pos = cookie_add(data, sizeof(data), pos, "; HttpOnly", "");
   if (flags & OC_SECURE)
-    pos += snprintf(data + pos, sizeof(data) - pos, "; Secure");
+    pos = cookie_add(data, sizeof(data), pos, "; Secure", "");
 
   switch (flags & (OC_SAMESITE_NONE | OC_SAMESITE_LAX | OC_SAMESITE_STRICT)) {
   case OC_SAMESITE_NONE:
-    pos+=snprintf(data+pos, sizeof(data)-pos, "; SameSite=None");
+    pos = cookie_add(data, sizeof(data), pos, "; SameSite=None", "");
     break;
   case OC_SAMESITE_LAX:
-    pos+=snprintf(data+pos, sizeof(data)-pos, "; SameSite=Lax");
+    pos = cookie_add(data, sizeof(data), pos, "; SameSite=Lax", "");
     break;
   case OC_SAMESITE_STRICT:
-    pos+=snprintf(data+pos, sizeof(data)-pos, "; SameSite=Strict");
+    pos = cookie_add(data, sizeof(data), pos, "; SameSite=Strict", "");
     break;
   default:
     break;
-- 
2.43.0


From 2964f1dde96a208e3ae803b512d81fbf41391224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:34 +0000
Subject: [PATCH 29/72] fix: adding a second cookie to a response does not drop
 the first

---
 src/onion/response.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 719fba3..08ac6f9 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -707,7 +707,7 @@ bool onion_response_add_cookie(onion_response * res, const char *cookiename,
     return false;
   }
 
-  onion_response_set_header(res, "Set-Cookie", data);
+  onion_dict_add(res->headers, "Set-Cookie", data, OD_DUP_VALUE);       // There may be several cookies.
   ONION_DEBUG("Set cookie %s", data);
 
   return true;
-- 
2.43.0


From 8043f4987670dd8aa068dbbbb60e134a3e141942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:34 +0000
Subject: [PATCH 30/72] fix: a big error page is not announced with the empty
 length of the failed handler

---
 src/onion/handler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/handler.c b/src/onion/handler.c
index 90a353e..3bdfc02 100644
--- a/src/onion/handler.c
+++ b/src/onion/handler.c
@@ -68,7 +68,7 @@ onion_connection_status onion_handler_handle(onion_handler * handler,
       ONION_DEBUG0("Result: %d", res);
       if (res) {
         // write pending data.
-        if (!(response->flags & OR_HEADER_SENT)
+        if (!(response->flags & OR_HEADER_SENT) && response->buffer_pos > 0     // Nothing yet, may be an error with its own answer later.
             && response->buffer_pos < sizeof(response->buffer))
           onion_response_set_length(response, response->buffer_pos);
         onion_response_flush(response);
-- 
2.43.0


From 0002d0e738c31a8db6cfe1b283c6f9d16e63cbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:34 +0000
Subject: [PATCH 31/72] fix: a handler answering OCS_FORBIDDEN gives a 403
 response instead of an empty 200

---
 src/onion/request.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index 5bb8322..1a3a8c4 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -580,7 +580,8 @@ onion_connection_status onion_request_process(onion_request * req) {
                            req, res);
 
   if (hs == OCS_INTERNAL_ERROR ||
-      hs == OCS_NOT_IMPLEMENTED || hs == OCS_NOT_PROCESSED) {
+      hs == OCS_NOT_IMPLEMENTED || hs == OCS_NOT_PROCESSED ||
+      hs == OCS_FORBIDDEN) {
     if (hs == OCS_INTERNAL_ERROR)
       req->flags |= OR_INTERNAL_ERROR;
     if (hs == OCS_NOT_IMPLEMENTED)
-- 
2.43.0


From 10d42f37485d2f660a01d0784393f5cb63e0e2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:19 +0000
Subject: [PATCH 32/72] fix: websocket messages of any length go out whole,
 with a right length header and despite short writes

---
 src/onion/websocket.c | 43 +++++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index cf49bef..d5580e1 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -56,6 +56,21 @@ typedef ssize_t(lpreader_sig_t) (onion_request * req, char *data, size_t len);
 
 static int onion_websocket_read_packet_header(onion_websocket * ws);
 
+/// Writes all the data to the connection, in as many writes as necessary. Returns <0 on error.
+static int onion_websocket_write_all(onion_websocket * ws, const char *data,
+                                     size_t len) {
+  while (len > 0) {
+    ssize_t w = ws->req->connection.listen_point->write(ws->req, data, len);
+    if (w <= 0)
+      return -1;
+    if (w >= len)
+      break;
+    data += w;
+    len -= w;
+  }
+  return 0;
+}
+
 const static char *websocket_magic_13 = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
 const static int websocket_magic_13_length = 36;
 
@@ -194,7 +209,7 @@ int onion_websocket_write(onion_websocket * ws, const char *buffer, size_t _len)
     header[1] = 0x00;           // Do not mask on send
     if (len < 126)
       header[1] |= len;
-    else if (len < 0x0FFFF) {
+    else if (len <= 0x0FFFF) {
       header[1] |= 126;
       header[2] = (len >> 8) & 0x0FF;
       header[3] = (len) & 0x0FF;
@@ -202,9 +217,9 @@ int onion_websocket_write(onion_websocket * ws, const char *buffer, size_t _len)
     } else {
       header[1] |= 127;
       int i;
-      int tlen = len;
+      uint64_t tlen = len;
       for (i = 0; i < 8; i++) {
-        header[3 + 8 - i] = tlen & 0x0FF;
+        header[2 + 7 - i] = tlen & 0x0FF;
         tlen >>= 8;
       }
       hlen += 8;
@@ -217,25 +232,13 @@ int onion_websocket_write(onion_websocket * ws, const char *buffer, size_t _len)
        }
      */
 
-    (*lpwriter) (ws->req, header, hlen);
-  }
-  /// FIXME! powerup using int32_t as basic type.
-  int ret = 0;
-  int i, j;
-  char tout[1024];
-  for (i = 0; i < len - 1024; i += 1024) {
-    for (j = 0; j < sizeof(tout); j++) {
-      //ONION_DEBUG("At %d, %02X ^ %02X = %02X", (i+j)&1023, buffer[i+j]&0x0FF, mask[j&3]&0x0FF, (buffer[i]^mask[j&3])&0x0FF);
-      tout[j] = buffer[i + j];
-    }
-    ret += (*lpwriter) (ws->req, tout, sizeof(tout));
-  }
-  for (; i < len; i++) {
-    //ONION_DEBUG("At %d, %02X ^ %02X = %02X", i&1023, buffer[i]&0x0FF, mask[i&3]&0x0FF, (buffer[i]^mask[i&3])&0x0FF);
-    tout[i & 1023] = buffer[i];
+    if (onion_websocket_write_all(ws, header, hlen) < 0)
+      return -1;
   }
+  if (onion_websocket_write_all(ws, buffer, len) < 0)
+    return -1;
 
-  return (*lpwriter) (ws->req, tout, len & 1023);
+  return len;
 }
 
 /**
-- 
2.43.0


From b085475dd7a99a45f686ab5f895e6d926de6f773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:19 +0000
Subject: [PATCH 33/72] fix: websocket frame headers may arrive in several
 reads

---
 src/onion/websocket.c | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index d5580e1..b1647fe 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -71,6 +71,19 @@ static int onion_websocket_write_all(onion_websocket * ws, const char *data,
   return 0;
 }
 
+/// Reads exactly len bytes of a frame header, however they arrive. Returns <0 if not possible.
+static int onion_websocket_read_all(onion_websocket * ws, char *data,
+                                    size_t len) {
+  while (len > 0) {
+    ssize_t r = ws->req->connection.listen_point->read(ws->req, data, len);
+    if (r <= 0)
+      return -1;
+    data += r;
+    len -= r;
+  }
+  return 0;
+}
+
 const static char *websocket_magic_13 = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
 const static int websocket_magic_13_length = 36;
 
@@ -418,9 +431,7 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
     ONION_DEBUG("no listen point reader in websocket@%p", ws);
     return OCS_CLOSE_CONNECTION;
   }
-  int r = (*lpreader) (ws->req, tmp, 2);
-  //ONION_DEBUG("reading input r = %i", r);
-  if (r != 2) {
+  if (onion_websocket_read_all(ws, tmp, 2) < 0) {
     ONION_DEBUG("Error reading header");
     return OCS_CLOSE_CONNECTION;
   }
@@ -433,31 +444,28 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
   ws->opcode = tmp[0] & 0x0F;
   ws->data_left = tmp[1] & 0x7F;
   if (ws->data_left == 126) {
-    r = (*lpreader) (ws->req, tmp, 2);
-    if (r != 2) {
+    if (onion_websocket_read_all(ws, tmp, 2) < 0) {
       ONION_DEBUG("Error reading header");
+      ws->data_left = 0;
       return OCS_CLOSE_CONNECTION;
     }
     ONION_DEBUG("%d %d", utmp[0], utmp[1]);
     ws->data_left = utmp[1] + utmp[0] * 256;
   } else if (ws->data_left == 127) {
-    r = (*lpreader) (ws->req, tmp, 8);
-    //ONION_DEBUG("%d %d %d %d %d %d %d", utmp[0], utmp[1], utmp[2], utmp[3], utmp[4], utmp[5], utmp[6], utmp[7]);
-    if (r != 8) {
+    ws->data_left = 0;
+    if (onion_websocket_read_all(ws, tmp, 8) < 0 || utmp[0] & 0x80) {   // The length is 63 bits.
       ONION_DEBUG("Error reading header");
       return OCS_CLOSE_CONNECTION;
     }
-    ws->data_left = 0;
     int i;
     for (i = 0; i < 8; i++)
       ws->data_left += ((uint64_t) utmp[i]) << ((7 - i) * 8);   // Maybe problematic on 32bits systems
   }
   ONION_DEBUG("Data left %d", ws->data_left);
   if (ws->flags & WS_MASK) {
-    r = (*lpreader) (ws->req, ws->mask, 4);
-    //ONION_DEBUG("bytes read=%i", r);
-    if (r != 4) {
+    if (onion_websocket_read_all(ws, ws->mask, 4) < 0) {
       ONION_DEBUG("Error reading header (4)");
+      ws->data_left = 0;
       return OCS_CLOSE_CONNECTION;
     }
     ws->mask_pos = 0;
@@ -471,8 +479,7 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
     onion_websocket_write(ws, data, r);
   }
   if (ws->opcode == OWS_CONNECTION_CLOSE) {     // Closing connection
-    r = (*lpreader) (ws->req, tmp, 2);
-    if (r != 2) {
+    if (onion_websocket_read_all(ws, tmp, 2) < 0) {
       ONION_DEBUG("Error reading status code");
       return OCS_CLOSE_CONNECTION;
     }
-- 
2.43.0


From 058323623ac19e754b992a7f0717fd2c1ec2b41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:19 +0000
Subject: [PATCH 34/72] fix: websocket reads that end in an error keep the data
 already read, and errors do not count as data

---
 src/onion/websocket.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index b1647fe..f51f421 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -279,6 +279,8 @@ int onion_websocket_read(onion_websocket * ws, char *buffer, size_t len) {
     ONION_DEBUG("no listen point reader in websocket@%p", ws);
     return -1;
   }
+  if (len == 0)
+    return 0;
   //ONION_DEBUG("Please, read %d bytes, %d ready", len, ws->data_left);
   if (ws->data_left == 0) {
     onion_connection_status status;
@@ -296,7 +298,14 @@ int onion_websocket_read(onion_websocket * ws, char *buffer, size_t len) {
     len = ws->data_left;
     //ONION_DEBUG("Read %d bytes now, %d bytes later", len, left_len);
   }
-  int r = (*lpreader) (ws->req, buffer, len);
+  int r = 0;
+  if (len > 0) {
+    r = (*lpreader) (ws->req, buffer, len);
+    if (r <= 0) {
+      ws->callback = NULL;      // Easy way to force close of websocket, which is ok as it closed.
+      return r;
+    }
+  }
   if (ws->flags & WS_MASK) {
     char *p = buffer;
     int i;
@@ -307,11 +316,12 @@ int onion_websocket_read(onion_websocket * ws, char *buffer, size_t len) {
   }
   ws->data_left -= r;
 
-  if (left_len && r == len)
-    r += onion_websocket_read(ws, &buffer[len], left_len);
-
-  if (r < 0 || (r == 0 && errno != 0)) {
-    ws->callback = NULL;        // Easy way to force close of websocket, which is ok as it closed.
+  if (left_len && r == len) {
+    int next = onion_websocket_read(ws, &buffer[len], left_len);
+    if (next < 0 && r == 0)
+      return next;
+    if (next > 0)
+      r += next;
   }
   return r;
 }
-- 
2.43.0


From 7fe458d26240c5e0a5a168ffb6aa53d08efde218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:19 +0000
Subject: [PATCH 35/72] fix: websocket pings are answered with their own data
 and opcode, without leaking nor reserving the announced size

---
 src/onion/websocket.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index f51f421..7f799fa 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -43,6 +43,7 @@
 enum onion_websocket_flags_e {
   WS_FIN = 1,
   WS_MASK = 2,
+  WS_PING = 4,
 };
 
 // signature of writer in listen point.
@@ -446,6 +447,7 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
     return OCS_CLOSE_CONNECTION;
   }
 
+  onion_websocket_opcode last_opcode = ws->opcode;
   ws->flags = 0;
   if (tmp[0] & 0x80)
     ws->flags |= WS_FIN;
@@ -482,11 +484,27 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
   }
 
   if (ws->opcode == OWS_PING) { // I do answer ping myself.
+    char data[125];
+    size_t len = ws->data_left;
+    if (len > sizeof(data)) {
+      ONION_DEBUG("Too long ping");
+      ws->data_left = 0;
+      return OCS_CLOSE_CONNECTION;
+    }
+    size_t pos = 0;
+    while (pos < len) {
+      int r = onion_websocket_read(ws, data + pos, len - pos);
+      if (r <= 0) {
+        ws->data_left = 0;
+        return OCS_CLOSE_CONNECTION;
+      }
+      pos += r;
+    }
     onion_websocket_set_opcode(ws, OWS_PONG);
-    char *data = onion_low_scalar_malloc(ws->data_left);
-    ssize_t r = onion_websocket_read(ws, data, ws->data_left);
-
-    onion_websocket_write(ws, data, r);
+    onion_websocket_write(ws, data, len);
+    onion_websocket_set_opcode(ws, last_opcode);
+    ws->flags |= WS_PING;
+    return OCS_NEED_MORE_DATA;
   }
   if (ws->opcode == OWS_CONNECTION_CLOSE) {     // Closing connection
     if (onion_websocket_read_all(ws, tmp, 2) < 0) {
@@ -533,6 +551,8 @@ onion_connection_status onion_websocket_call(onion_websocket * ws) {
             ONION_ERROR("Error reading websocket header (%i)", err);
           return err;
         }
+        if (ws->flags & WS_PING)        // Nothing for the callback.
+          continue;
       }
 
       size_t last_d_l;
-- 
2.43.0


From c60771e086585e7765e8fce972a9cd60ce5f764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:19 +0000
Subject: [PATCH 36/72] fix: a websocket close is answered with its own status,
 if any

---
 src/onion/websocket.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 7f799fa..65854ed 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -507,13 +507,23 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
     return OCS_NEED_MORE_DATA;
   }
   if (ws->opcode == OWS_CONNECTION_CLOSE) {     // Closing connection
+    if (ws->data_left < 2) {    // No status
+      ws->data_left = 0;
+      onion_websocket_write(ws, "", 0);
+      return OCS_CLOSE_CONNECTION;
+    }
+    ws->data_left = 0;
     if (onion_websocket_read_all(ws, tmp, 2) < 0) {
       ONION_DEBUG("Error reading status code");
       return OCS_CLOSE_CONNECTION;
     }
     char status[2];
-    status[0] = utmp[0] ^ ws->mask[0];
-    status[1] = utmp[1] ^ ws->mask[1];
+    status[0] = utmp[0];
+    status[1] = utmp[1];
+    if (ws->flags & WS_MASK) {
+      status[0] ^= ws->mask[0];
+      status[1] ^= ws->mask[1];
+    }
     ONION_DEBUG("Connection closed by client, status=%u",
                 (status[0] << 8) + status[1]);
     onion_websocket_close(ws, (const char *)&status);
-- 
2.43.0


From 72e11d12639b6b9d6f96fa963071d48bce4a67d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:19 +0000
Subject: [PATCH 37/72] fix: websocket printf sends every byte of long messages

---
 src/onion/websocket.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 65854ed..6ddf7aa 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -341,8 +341,14 @@ int onion_websocket_read(onion_websocket * ws, char *buffer, size_t len) {
   */
 int onion_websocket_vprintf(onion_websocket * ws, const char *fmt, va_list args) {
   char temp[512];
-  int l = vsnprintf(temp, sizeof(temp) - 1, fmt, args);
-  if (l < sizeof(temp))
+  va_list argz;
+  va_copy(argz, args);
+  int l = vsnprintf(temp, sizeof(temp), fmt, argz);
+  va_end(argz);
+  if (l < 0) {
+    ONION_ERROR("Invalid vprintf fmt");
+    return -1;
+  } else if (l < sizeof(temp))
     return onion_websocket_write(ws, temp, l);
   else {
     ssize_t s;
@@ -353,7 +359,7 @@ int onion_websocket_vprintf(onion_websocket * ws, const char *fmt, va_list args)
       ONION_ERROR("Could not reserve %d bytes", l + 1);
       return -1;
     }
-    vsnprintf(buf, l, fmt, args);
+    vsnprintf(buf, l + 1, fmt, args);
     s = onion_websocket_write(ws, buf, l);
     onion_low_free(buf);
     return s;
-- 
2.43.0


From 1bc01ae0d47d0a7a3d9be22a9dfd51488839d81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:19 +0000
Subject: [PATCH 38/72] fix: the accepted websocket protocol is announced in
 the right header

---
 src/onion/websocket.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 6ddf7aa..c2ceeec 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -150,7 +150,7 @@ onion_websocket *onion_websocket_new(onion_request * req, onion_response * res)
   res->flags |= OR_LENGTH_SET;  // Fix for Chrome to close cleanly websocket connections
   onion_response_set_header(res, "Upgrade", "websocket");
   if (ws_protocol)
-    onion_response_set_header(res, "Sec-Websocket-Procotol", ws_protocol);
+    onion_response_set_header(res, "Sec-Websocket-Protocol", ws_protocol);
   onion_response_set_header(res, "Sec-Websocket-Accept", key_answer);
   onion_low_free(key_answer);
 
-- 
2.43.0


From dbedc6ca58443c3b8e5df3cd2e0e5c2b73baa9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:37 +0000
Subject: [PATCH 39/72] fix: any number of empty websocket frames can be read
 without exhausting the stack

---
 src/onion/websocket.c | 69 +++++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 38 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index c2ceeec..f9a2c8e 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -280,51 +280,44 @@ int onion_websocket_read(onion_websocket * ws, char *buffer, size_t len) {
     ONION_DEBUG("no listen point reader in websocket@%p", ws);
     return -1;
   }
-  if (len == 0)
-    return 0;
   //ONION_DEBUG("Please, read %d bytes, %d ready", len, ws->data_left);
-  if (ws->data_left == 0) {
-    onion_connection_status status;
-    if ((status = onion_websocket_read_packet_header(ws)) < 0) {
-      if (status == -2)
-        return -2;
-      ONION_ERROR("Error reading websocket header (%i)", status);
-      return -1;
+  size_t total = 0;
+  while (total < len) {         // Not recursive, as frames may be empty and there may be any number of them.
+    if (ws->data_left == 0) {
+      onion_connection_status status;
+      if ((status = onion_websocket_read_packet_header(ws)) < 0) {
+        if (total > 0)
+          break;
+        if (status == -2)
+          return -2;
+        ONION_ERROR("Error reading websocket header (%i)", status);
+        return -1;
+      }
+      continue;
     }
-  }
-
-  size_t left_len = 0;
-  if (len > ws->data_left) {
-    left_len = len - ws->data_left;
-    len = ws->data_left;
-    //ONION_DEBUG("Read %d bytes now, %d bytes later", len, left_len);
-  }
-  int r = 0;
-  if (len > 0) {
-    r = (*lpreader) (ws->req, buffer, len);
+    size_t want = len - total;
+    if (want > ws->data_left)
+      want = ws->data_left;
+    ssize_t r = (*lpreader) (ws->req, buffer, want);
     if (r <= 0) {
       ws->callback = NULL;      // Easy way to force close of websocket, which is ok as it closed.
-      return r;
+      return total > 0 ? total : r;
     }
-  }
-  if (ws->flags & WS_MASK) {
-    char *p = buffer;
-    int i;
-    for (i = 0; i < r; i++) {
-      *p = *p ^ ws->mask[(ws->mask_pos++) & 3];
-      p++;
+    if (ws->flags & WS_MASK) {
+      char *p = buffer;
+      ssize_t i;
+      for (i = 0; i < r; i++) {
+        *p = *p ^ ws->mask[(ws->mask_pos++) & 3];
+        p++;
+      }
     }
+    ws->data_left -= r;
+    buffer += r;
+    total += r;
+    if (r < want)
+      break;
   }
-  ws->data_left -= r;
-
-  if (left_len && r == len) {
-    int next = onion_websocket_read(ws, &buffer[len], left_len);
-    if (next < 0 && r == 0)
-      return next;
-    if (next > 0)
-      r += next;
-  }
-  return r;
+  return total;
 }
 
  /**
-- 
2.43.0


From bdf398a5329f5d4bb6f7bafcf8de41f8df67d599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:44 +0000
Subject: [PATCH 40/72] fix: websocket ping and pong use the opcodes of RFC
 6455

---
 src/onion/types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/types.h b/src/onion/types.h
index 5ef24be..d86ced9 100644
--- a/src/onion/types.h
+++ b/src/onion/types.h
@@ -273,8 +273,8 @@ extern "C" {
     OWS_TEXT = 1,
     OWS_BINARY = 2,
     OWS_CONNECTION_CLOSE = 8,
-    OWS_PING = 0x0a,
-    OWS_PONG = 0x0b
+    OWS_PING = 0x09,
+    OWS_PONG = 0x0a
   };
 
   typedef enum onion_websocket_opcode_e onion_websocket_opcode;
-- 
2.43.0


From 098ee016eb35b0e89c15a752922f7391f3b2e881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:43 +0000
Subject: [PATCH 41/72] fix: a long Range header does not overflow the etag of
 a file

---
 src/onion/shortcuts.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 860a2be..0685b82 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -193,12 +193,12 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
   if (length > 0x7ffff000) // ~2GB
     use_sendfile = 0; // - a documented limitation for sendfile() command
 
-  char etag[64];
+  char etag[32 + 1024];
   onion_shortcut_etag(&st, etag);
 
   const char *range = onion_request_get_header(request, "Range");
   if (range) {
-    strncat(etag, range, sizeof(etag) - 1);
+    strncat(etag, range, sizeof(etag) - strlen(etag) - 1);
   }
   onion_response_set_header(res, "Etag", etag);
 
-- 
2.43.0


From 4434f3ab0781a093d9cb4a0c461956bd742f3b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:43 +0000
Subject: [PATCH 42/72] fix: byte ranges are cut to the file, count from its
 end if they say so, and are announced exactly

---
 src/onion/shortcuts.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 0685b82..396507d 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -203,14 +203,13 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
   onion_response_set_header(res, "Etag", etag);
 
   if (range && strncmp(range, "bytes=", 6) == 0) {
-    onion_response_set_code(res, HTTP_PARTIAL_CONTENT);
     //ONION_DEBUG("Need just a range: %s",range);
     char tmp[1024];
     if (strlen(range + 6) >= sizeof(tmp)) {
       close(fd);
       return OCS_INTERNAL_ERROR;        // Bad specified range. Very bad indeed.
     }
-    strncpy(tmp, range + 6, sizeof(tmp) - 1);
+    strcpy(tmp, range + 6);
     char *start = tmp;
     char *end = tmp;
     while (*end != '-' && *end)
@@ -220,25 +219,31 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
       end++;
 
       //ONION_DEBUG("Start %s, end %s",start,end);
-      size_t ends, starts;
-      if (*end)
-        ends = atol(end);
-      else
-        ends = length - 1;
-      starts = atol(start);
-      if (starts > ends || starts > length) {
+      size_t ends = length - 1, starts;
+      if (*start) {
+        starts = atol(start);
+        if (*end)
+          ends = atol(end);
+      } else {                  // The last bytes of the file
+        size_t last = atol(end);
+        starts = last < length ? length - last : 0;
+      }
+      if (starts > ends || starts >= length) {
         ONION_DEBUG0("Range not satisfiable");
-        snprintf(tmp, sizeof(tmp), "bytes */%d", (unsigned int)length);
+        snprintf(tmp, sizeof(tmp), "bytes */%lu", (unsigned long)length);
         onion_response_set_header(res, "Content-Range", tmp);
         onion_response_set_code(res, HTTP_RANGE_NOT_SATISFIABLE);
         onion_response_write_headers(res);
         close(fd);
         return OCS_PROCESSED;
       }
+      if (ends >= length)
+        ends = length - 1;
       length = ends - starts + 1;
+      onion_response_set_code(res, HTTP_PARTIAL_CONTENT);
       lseek(fd, starts, SEEK_SET);
-      snprintf(tmp, sizeof(tmp), "bytes %d-%d/%d", (unsigned int)starts,
-               (unsigned int)ends, (unsigned int)st.st_size);
+      snprintf(tmp, sizeof(tmp), "bytes %lu-%lu/%lu", (unsigned long)starts,
+               (unsigned long)ends, (unsigned long)st.st_size);
       //onion_response_set_header(res, "Accept-Ranges","bytes");
       onion_response_set_header(res, "Content-Range", tmp);
     }
-- 
2.43.0


From 67303007f5266e97f417819439f97107f685a0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:43 +0000
Subject: [PATCH 43/72] fix: only HEAD requests of a file get no content

---
 src/onion/shortcuts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 396507d..47e272c 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -264,7 +264,7 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
     return OCS_PROCESSED;
   }
   onion_response_write_headers(res);
-  if ((onion_request_get_flags(request) & OR_HEAD) == OR_HEAD) {        // Just head.
+  if ((onion_request_get_flags(request) & OR_METHODS) == OR_HEAD) {        // Just head.
     length = 0;
   }
 
-- 
2.43.0


From 8dcc7b310d4f5c1a6f7b104f9c54810424b8443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:43 +0000
Subject: [PATCH 44/72] fix: files are sent whole over short reads and writes,
 and a file that shrinks does not hang the server

---
 src/onion/shortcuts.c | 43 +++++++++++++++----------------------------
 1 file changed, 15 insertions(+), 28 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 47e272c..c241f7b 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -273,45 +273,32 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
     if (use_sendfile && request->connection.listen_point->write == (void *)onion_http_write) {  // Lets have a house party! I can use sendfile!
       onion_response_write(res, NULL, 0);
       ONION_DEBUG("Using sendfile");
-      int r = sendfile(request->connection.fd, fd, NULL, length);
-      ONION_DEBUG("Wrote %d, should be %d (%s)", r, length,
-                  r == length ? "ok" : "nok");
-      if (r != length || r < 0) {
-        ONION_ERROR("Could not send all file (%s)", strerror(errno));
-        close(fd);
-        return OCS_INTERNAL_ERROR;
+      while (length) {
+        ssize_t r = sendfile(request->connection.fd, fd, NULL, length);
+        if (r <= 0) {           // Less than announced, so the connection will be closed.
+          ONION_ERROR("Could not send all file (%s)", strerror(errno));
+          break;
+        }
+        length -= r;
+        res->sent_bytes += r;
+        res->sent_bytes_total += r;
       }
-      res->sent_bytes += length;
-      res->sent_bytes_total += length;
     } else
 #endif
     {                           // Ok, no I cant, do it as always.
       int r = 0, w;
-      size_t tr = 0;
       char tmp[4046];
-      if (length > sizeof(tmp)) {
-        size_t max = length - sizeof(tmp);
-        while (tr < max) {
-          r = read(fd, tmp, sizeof(tmp));
-          tr += r;
-          if (r < 0)
-            break;
-          w = onion_response_write(res, tmp, r);
-          if (w != r) {
-            ONION_ERROR
-                ("Wrote less than read: write %d, read %d. Quite probably closed connection.",
-                 w, r);
-            break;
-          }
-        }
-      }
-      if (sizeof(tmp) >= (length - tr)) {
-        r = read(fd, tmp, length - tr);
+      while (length) {
+        r = read(fd, tmp, length < sizeof(tmp) ? length : sizeof(tmp));
+        if (r <= 0)             // Less than announced, so the connection will be closed.
+          break;
+        length -= r;
         w = onion_response_write(res, tmp, r);
         if (w != r) {
           ONION_ERROR
               ("Wrote less than read: write %d, read %d. Quite probably closed connection.",
                w, r);
+          break;
         }
       }
     }
-- 
2.43.0


From 9df9855d948b2c330b6712c7b9c119ab77fb27d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:43 +0000
Subject: [PATCH 45/72] fix: date strings are written whatever the date

---
 src/onion/shortcuts.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index c241f7b..1919981 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -340,7 +340,7 @@ onion_connection_status onion_shortcut_response_json(onion_dict * d,
 void onion_shortcut_date_string(time_t t, char *dest) {
   struct tm ts;
   gmtime_r(&t, &ts);
-  strftime(dest, t, "%a, %d %b %Y %T %Z", &ts);
+  strftime(dest, 32, "%a, %d %b %Y %T %Z", &ts);
 }
 
 /**
@@ -352,7 +352,7 @@ void onion_shortcut_date_string(time_t t, char *dest) {
 void onion_shortcut_date_string_iso(time_t t, char *dest) {
   struct tm ts;
   gmtime_r(&t, &ts);
-  strftime(dest, t, "%FT%TZ", &ts);
+  strftime(dest, 21, "%FT%TZ", &ts);
 }
 
 /**
-- 
2.43.0


From 54d2e8599d0009927b161860c8cb118ebef26925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:43 +0000
Subject: [PATCH 46/72] fix: a file moved across file systems is removed only
 after it was copied whole

---
 src/onion/shortcuts.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 1919981..d5ff8b0 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -394,22 +394,23 @@ int onion_shortcut_rename(const char *orig, const char *dest) {
     if (ok == 0) {
       char tmp[4096];
       int r;
-      while ((r = read(fd_orig, tmp, sizeof(tmp))) > 0) {
-        r = write(fd_dest, tmp, r);
-        if (r < 0) {
-          ONION_ERROR("Error writing to destination file (%s)",
+      while (ok == 0 && (r = read(fd_orig, tmp, sizeof(tmp))) != 0) {
+        int pos = 0, w = 0;
+        while (pos < r && (w = write(fd_dest, &tmp[pos], r - pos)) > 0)
+          pos += w;
+        if (r < 0 || pos < r) {
+          ONION_ERROR("Error copying to destination file (%s)",
                       strerror(errno));
           ok = 1;
-          break;
         }
       }
     }
-    if (fd_orig >= 0) {
+    if (fd_orig >= 0)
       close(fd_orig);
+    if (fd_dest >= 0 && close(fd_dest) < 0)
+      ok = 1;
+    if (ok == 0)                // Only when there is a full copy
       unlink(orig);
-    }
-    if (fd_dest >= 0)
-      close(fd_dest);
   }
   return ok;
 }
-- 
2.43.0


From bad4eb87b8eac57eb45c2013b48513df661ab238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:42 +0000
Subject: [PATCH 47/72] fix: url groups after an optional one that did not
 match are delivered

---
 src/onion/url.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/onion/url.c b/src/onion/url.c
index 4d0d643..4fd8f44 100644
--- a/src/onion/url.c
+++ b/src/onion/url.c
@@ -98,8 +98,7 @@ int onion_url_handler(onion_url_data ** dd, onion_request * request,
           snprintf(tmpn, sizeof(tmpn), "%d", i);
           onion_dict_add(reqheader, tmpn, tmp, OD_DUP_KEY | OD_FREE_VALUE);
           ONION_DEBUG("Add group %d: %s (%d-%d)", i, tmp, rm->rm_so, rm->rm_eo);
-        } else
-          break;
+        }
       }
       onion_request_advance_path(request, match[0].rm_eo);
       ONION_DEBUG0("Ok, regexp match.");
-- 
2.43.0


From 368ee1d23ac003c3c95638e4becf47ce31cce5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:42 +0000
Subject: [PATCH 48/72] fix: a handler that does not process a request leaves
 its path to the next one

---
 src/onion/handlers/path.c |  5 ++++-
 src/onion/url.c           | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/onion/handlers/path.c b/src/onion/handlers/path.c
index 53e27c0..098e6b8 100644
--- a/src/onion/handlers/path.c
+++ b/src/onion/handlers/path.c
@@ -54,7 +54,10 @@ int onion_handler_path_handler(onion_handler_path_data * d,
 
   onion_request_advance_path(request, match[0].rm_eo);
 
-  return onion_handler_handle(d->inside, request, response);
+  int ret = onion_handler_handle(d->inside, request, response);
+  if (ret == OCS_NOT_PROCESSED) // Others may process it, with the path as it was.
+    onion_request_advance_path(request, -match[0].rm_eo);
+  return ret;
 }
 
 void onion_handler_path_delete(void *data) {
diff --git a/src/onion/url.c b/src/onion/url.c
index 4fd8f44..d48f72c 100644
--- a/src/onion/url.c
+++ b/src/onion/url.c
@@ -80,7 +80,10 @@ int onion_url_handler(onion_url_data ** dd, onion_request * request,
         ONION_DEBUG0("Ok, simple match.");
 
         onion_request_advance_path(request, strlen(next->str));
-        return onion_handler_handle(next->inside, request, response);
+        int ret = onion_handler_handle(next->inside, request, response);
+        if (ret == OCS_NOT_PROCESSED)   // Others may process it, with the path as it was.
+          onion_request_advance_path(request, -(off_t) strlen(next->str));
+        return ret;
       }
     } else
         if (regexec
@@ -103,7 +106,10 @@ int onion_url_handler(onion_url_data ** dd, onion_request * request,
       onion_request_advance_path(request, match[0].rm_eo);
       ONION_DEBUG0("Ok, regexp match.");
 
-      return onion_handler_handle(next->inside, request, response);
+      int ret = onion_handler_handle(next->inside, request, response);
+      if (ret == OCS_NOT_PROCESSED)     // Others may process it, with the path as it was.
+        onion_request_advance_path(request, -match[0].rm_eo);
+      return ret;
     }
 
     next = next->next;
-- 
2.43.0


From c1b1ffa334c6a2068992f31cdaafb8ac78cdf95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:53 +0000
Subject: [PATCH 49/72] fix: an internal redirect keeps the query parameters
 and can use part of the current path

---
 src/onion/shortcuts.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index d5ff8b0..b0dc2c2 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -43,6 +43,7 @@
 #include "shortcuts.h"
 #include "dict.h"
 #include "block.h"
+#include "ptr_list.h"
 #include "mime.h"
 #include "types_internal.h"
 #include "low.h"
@@ -131,8 +132,9 @@ onion_connection_status onion_shortcut_redirect(const char *newurl,
 onion_connection_status onion_shortcut_internal_redirect(const char *newurl,
                                                          onion_request * req,
                                                          onion_response * res) {
-  onion_low_free(req->fullpath);
-  req->fullpath = req->path = onion_low_strdup(newurl);
+  char *fullpath = onion_low_strdup(newurl);    // It may be part of the current path
+  req->free_list = onion_ptr_list_add(req->free_list, req->fullpath);   // The query points into it. Free when the request is freed.
+  req->fullpath = req->path = fullpath;
   return onion_handler_handle(req->connection.listen_point->server->
                               root_handler, req, res);
 }
-- 
2.43.0


From f07baa26142edb4a628904653cce2cfc042cfd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:46 +0000
Subject: [PATCH 50/72] fix: a request without HTTP version does not crash
 regexp urls

---
 src/onion/request_parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 33ba317..2379b7b 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -892,6 +892,8 @@ static onion_connection_status parse_headers_URL(onion_request * req,
   ONION_DEBUG0("URL path is %s", req->fullpath);
 
   if (res == STRING_NEW_LINE) { // Old HTTP/0? or lazy user, dont set the HTTP version, straigth new line.
+    if (!req->GET)
+      req->GET = onion_dict_new();
     req->parser = parse_headers_KEY;
     return parse_headers_KEY(req, data);
   } else {
-- 
2.43.0


From b09a4034ed5e6881c50bfc7440fd1dcd1a3c517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:33 +0000
Subject: [PATCH 51/72] fix: a directory whose name starts as the exported one
 is not exported

---
 src/onion/handlers/exportlocal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index df4051b..c55e1ed 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -89,7 +89,9 @@ int onion_handler_export_local_handler(onion_handler_export_local_data * d,
   }
 
   const char *ret = realpath(tmp, realp);
-  if (!ret || strncmp(realp, d->localpath, strlen(d->localpath)) != 0) {        // out of secured dir.
+  size_t l = strlen(d->localpath);
+  if (!ret || strncmp(realp, d->localpath, l) != 0 ||
+      (realp[l] && realp[l] != '/' && d->localpath[l - 1] != '/')) {    // out of secured dir.
     ONION_WARNING
         ("Trying to escape from secured dir (secured dir %s, trying %s).",
          d->localpath, realp);
-- 
2.43.0


From fd245ae68a40ec2f7f34f8afafd2b00fe2954f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:33 +0000
Subject: [PATCH 52/72] fix: a path too long is not found, instead of giving
 the file of its beginning

---
 src/onion/handlers/exportlocal.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index c55e1ed..5ed6239 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -72,10 +72,12 @@ int onion_handler_export_local_handler(onion_handler_export_local_data * d,
       ONION_ERROR("File path too long");
       return OCS_INTERNAL_ERROR;
     }
-    strncpy(tmp, d->localpath, PATH_MAX - 1);
-  } else
-    snprintf(tmp, PATH_MAX, "%s/%s", d->localpath,
-             onion_request_get_path(request));
+    strcpy(tmp, d->localpath);
+  } else if (snprintf(tmp, PATH_MAX, "%s/%s", d->localpath,
+                      onion_request_get_path(request)) >= PATH_MAX) {
+    ONION_WARNING("Requested path too long");
+    return OCS_NOT_PROCESSED;
+  }
 
   ONION_DEBUG0("Get %s (base %s)", tmp, d->localpath);
 
-- 
2.43.0


From dd3f7aff42965a7313cceba3f3fee6c0cb226000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:33 +0000
Subject: [PATCH 53/72] fix: webdav does not reach directories whose name
 starts as the shared one

---
 src/onion/handlers/webdav.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 9298dd8..ff6b403 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -736,7 +736,9 @@ int onion_webdav_default_check_permissions(const char *exported_path,
     ONION_ERROR("Could not resolve real path for %s or %s", exported_path,
                 filename);
   }
-  if ((ret == 0) && strncmp(base, file, strlen(base)) != 0) {
+  size_t l = strlen(base);
+  if ((ret == 0) && (strncmp(base, file, l) != 0 ||
+                     (file[l] && file[l] != '/' && base[l - 1] != '/'))) {
     ret = 1;
     ONION_ERROR("Base %s is not for file %s (%p)", base, file,
                 strncmp(base, file, strlen(base)));
-- 
2.43.0


From 8ee62b1e7621592bb89e5e57d5547a29cbb1106d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:33 +0000
Subject: [PATCH 54/72] fix: webdav refuses too long paths, instead of using
 the file of their beginning

---
 src/onion/handlers/webdav.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index ff6b403..3593ce7 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -112,8 +112,11 @@ onion_connection_status onion_webdav_handler(onion_webdav * wd,
 #endif
 
   char filename[512];
-  snprintf(filename, sizeof(filename), "%s/%s", wd->path,
-           onion_request_get_path(req));
+  if (snprintf(filename, sizeof(filename), "%s/%s", wd->path,
+               onion_request_get_path(req)) >= sizeof(filename)) {
+    ONION_ERROR("Path too long");
+    return onion_shortcut_response("Forbidden", HTTP_FORBIDDEN, req, res);
+  }
 
   ONION_DEBUG("Check %s and %s", wd->path, filename);
   if (wd->check_permissions(wd->path, filename, req) != 0) {
-- 
2.43.0


From bfba3cb89e551357ab1ba4f8c8c052b1cfb6f094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:33 +0000
Subject: [PATCH 55/72] fix: webdav MOVE moves to its destination

---
 src/onion/handlers/webdav.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 3593ce7..1e02456 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -30,6 +30,7 @@
 #include <onion/log.h>
 #include <onion/response.h>
 #include <onion/block.h>
+#include <onion/codecs.h>
 #include <onion/shortcuts.h>
 #include <onion/low.h>
 
@@ -184,10 +185,12 @@ onion_connection_status onion_webdav_move(const char *filename,
                                           onion_webdav * wd,
                                           onion_request * req,
                                           onion_response * res) {
-  const char *dest = onion_request_get_header(req, "Destination");
-  if (!dest)
+  const char *dest_orig = onion_request_get_header(req, "Destination");
+  if (!dest_orig)
     return OCS_INTERNAL_ERROR;
-  const char *dest_orig = dest;
+  char *dest = alloca(strlen(dest_orig) + 1);
+  strcpy(dest, dest_orig);
+  onion_unquote_inplace(dest);
   // Skip the http... part. Just 3 /.
   int i;
   for (i = 0; i < 3; i += (*dest++ == '/'))
@@ -196,7 +199,6 @@ onion_connection_status onion_webdav_move(const char *filename,
   dest--;
 
   const char *fullpath = onion_request_get_fullpath(req);
-  const char *partialpath = onion_request_get_path(req);
   // Not the fixed URL part for this handler.
   int fpl = strlen(fullpath);   // Full path length
   int ppl = strlen(onion_request_get_path(req));        // Partial, the fullpath[fpl-ppl] is the end point of the handler path
@@ -212,15 +214,13 @@ onion_connection_status onion_webdav_move(const char *filename,
   }
   dest = &dest[fpl - ppl];
 
-  char orig[512];
-  snprintf(orig, sizeof(orig), "%s/%s", wd->path, partialpath);
-
-  if (wd->check_permissions(wd->path, orig, req) != 0) {
+  const char *orig = filename;
+  char fdest[512];
+  if (snprintf(fdest, sizeof(fdest), "%s/%s", wd->path, dest) >= sizeof(fdest)
+      || wd->check_permissions(wd->path, fdest, req) != 0) {
     return onion_shortcut_response("Forbidden", HTTP_FORBIDDEN, req, res);
   }
 
-  const char *fdest = filename;
-
   ONION_INFO("Move %s to %s (webdav)", fullpath, dest_orig);
 
   int ok = onion_shortcut_rename(orig, fdest);
-- 
2.43.0


From dd268ce21653d35090260dfb88093e86c6e712b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:33 +0000
Subject: [PATCH 56/72] fix: webdav PROPFIND writes inside its buffer and gives
 the address of the resources

---
 src/onion/handlers/webdav.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 1e02456..a6f143f 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -578,11 +578,10 @@ onion_connection_status onion_webdav_propfind(const char *filename,
   const char *fullpath = onion_request_get_fullpath(req);
   pathlen = (current_path - fullpath);
   basepath = alloca(pathlen + 1);
-  memcpy(basepath, fullpath, pathlen + 1);
-  ONION_DEBUG0("Pathbase initial <%s> %d", basepath, pathlen);
-  while (basepath[pathlen] == '/' && pathlen > 0)
+  memcpy(basepath, fullpath, pathlen);
+  while (pathlen > 0 && basepath[pathlen - 1] == '/')
     pathlen--;
-  basepath[pathlen + 1] = 0;
+  basepath[pathlen] = 0;
 
   ONION_DEBUG0("PROPFIND; pathbase %s", basepath);
   int depth;
-- 
2.43.0


From c5c1cb9f5be5ec8276e9f7272767b1b6503d8cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:33 +0000
Subject: [PATCH 57/72] fix: webdav PROPFIND and PROPPATCH without the expected
 content do not crash

---
 src/onion/handlers/webdav.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index a6f143f..caa2a50 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -598,7 +598,11 @@ onion_connection_status onion_webdav_propfind(const char *filename,
     depth = atoi(depths);
   }
 
-  int props = onion_webdav_parse_propfind(onion_request_get_data(req));
+  int props = 0xFF;             // If nothing asked, all of them.
+  if (onion_request_get_data(req))
+    props = onion_webdav_parse_propfind(onion_request_get_data(req));
+  if (props < 0)
+    return OCS_INTERNAL_ERROR;
   ONION_DEBUG("Asking for props %08X, depth %d", props, depth);
 
   onion_block *block = onion_webdav_write_propfind(basepath, filename,
@@ -658,9 +662,11 @@ onion_connection_status onion_webdav_proppatch(const char *filename,
               while (prop) {
                 ONION_DEBUG("prop %s", prop->name);
                 if (strcmp((const char *)prop->name, "executable") == 0) {
-                  ONION_DEBUG("Setting executable %s", prop->children->content);
                   struct stat st;
-                  stat(filename, &st);
+                  if (!prop->children || !prop->children->content
+                      || stat(filename, &st) != 0)
+                    break;
+                  ONION_DEBUG("Setting executable %s", prop->children->content);
                   if (prop->children->content[0] == 'T'
                       || prop->children->content[0] == 't') {
                     chmod(filename, st.st_mode | S_IXUSR | S_IXGRP | S_IXOTH);
-- 
2.43.0


From dde07c284b4a142d7ba852e3a0bc1eb2dc24bf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:45 +0000
Subject: [PATCH 58/72] fix: webdav does not write through links that lead
 nowhere yet

---
 src/onion/handlers/webdav.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index caa2a50..85cd215 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -735,6 +735,12 @@ int onion_webdav_default_check_permissions(const char *exported_path,
 
   file = realpath(filename, NULL);
   if (!file) {                  // Maybe it reffers to a non existent file, so we need the parent permissions
+    struct stat st;
+    if (lstat(filename, &st) == 0) {    // It exists and leads nowhere, creating it might be out of the base
+      ONION_ERROR("%s is a broken link", filename);
+      onion_low_free(base);
+      return 1;
+    }
     char *fname = alloca(strlen(filename) + 1);
     strcpy(fname, filename);
     file = realpath(dirname(fname), NULL);
-- 
2.43.0


From 74d8cc99de43e33ecefdc0901aa8d2e6489009eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:13 +0000
Subject: [PATCH 59/72] fix: webdav PROPFIND of a very long address does not
 write past its buffer

---
 src/onion/handlers/webdav.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 85cd215..231a56a 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -410,7 +410,7 @@ int onion_webdav_write_props(xmlTextWriterPtr writer, const char *basepath,
     }
   }
   if (S_ISDIR(st.st_mode) && urlpath[0] != 0)
-    strncat(tmp, "/", sizeof(tmp) - 1);
+    strncat(tmp, "/", sizeof(tmp) - 1 - strlen(tmp));
   ONION_DEBUG0("Props for %s", tmp);
 
   xmlTextWriterStartElement(writer, BAD_CAST "D:response");
-- 
2.43.0


From c370dcc86b36bc65bfe6caece3b4a56f6db94b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:08 +0000
Subject: [PATCH 60/72] fix: a handler that wrote something and then failed got
 two responses mixed

When a handler writes part of a response and then returns an error (or
declines), the error page was written after it: the status line and the
headers of the error page appeared in the middle of the body, or, when the
output was still in the buffer, after some bytes of body. Now what is
pending is dropped before the error page, and if the headers were already
sent the connection is closed.

Also when the error handler itself declines, the connection is closed if the
response says so.
---
 src/onion/request.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index 1a3a8c4..76153a8 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -591,8 +591,13 @@ onion_connection_status onion_request_process(onion_request * req) {
     if (hs == OCS_FORBIDDEN)
       req->flags |= OR_FORBIDDEN;
 
-    hs = onion_handler_handle(req->connection.listen_point->server->
-                              internal_error_handler, req, res);
+    if (res->flags & OR_HEADER_SENT) {  // Too late for an error page, the client is already reading another response.
+      hs = OCS_CLOSE_CONNECTION;
+    } else {
+      res->buffer_pos = 0;      // Nothing was sent yet, forget what the handler left half done.
+      hs = onion_handler_handle(req->connection.listen_point->server->
+                                internal_error_handler, req, res);
+    }
   }
 
   if (hs == OCS_YIELD) {
@@ -607,7 +612,7 @@ onion_connection_status onion_request_process(onion_request * req) {
   int rs = onion_response_free(res);
   if (hs >= 0 && rs == OCS_KEEP_ALIVE)  // if keep alive, reset struct to get the new request.
     onion_request_clean(req);
-  return hs > 0 ? rs : hs;
+  return hs >= 0 ? rs : hs;
 }
 
 /**
-- 
2.43.0


From 39d1154eed2c804d40253d0397de3d4e3b9f5cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:50 +0000
Subject: [PATCH 61/72] fix: the end of line after a multipart POST does not
 break the connection

A multipart POST is ready as soon as the last boundary is read. The end of
line that normally follows it, when it comes in the next packet, was taken as
the start of the next request, and the keep alive connection was closed.
---
 src/onion/request_parser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 2379b7b..da18ffd 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -905,6 +905,11 @@ static onion_connection_status parse_headers_URL(onion_request * req,
 static onion_connection_status parse_headers_GET(onion_request * req,
                                                  onion_buffer * data) {
   onion_token *token = req->parser_data;
+  if (token->pos == 0) {        // Ignore empty lines before the request, for example the end of line that follows a multipart POST.
+    while (data->pos < data->size
+           && (data->data[data->pos] == '\r' || data->data[data->pos] == '\n'))
+      data->pos++;
+  }
   int res = token_read_STRING(token, data);
 
   if (res <= 1000)
-- 
2.43.0


From 73748922a99c5378eedf34060330434aac3952a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:30 +0000
Subject: [PATCH 62/72] fix: only the cookie named sessionid gives the session

Cookies as my_sessionid=X, or a value as foo=sessionid=X were used as session
id too.
---
 src/onion/request.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index 76153a8..b2fc4c1 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -405,8 +405,8 @@ void onion_request_guess_session_id(onion_request * req) {
     v = strstr(v, "sessionid=");
     if (!v)                     // exit point, no session found.
       return;
-    if (v > ov && is_alnum(v[-1])) {
-      ONION_DEBUG("At -1: %c %d (%p %p)", v[-1], is_alnum(v[-1]), v, ov);
+    if (v > ov && v[-1] != ' ' && v[-1] != '\t' && v[-1] != ';') {      // Part of another name, or of a value.
+      ONION_DEBUG("At -1: %c (%p %p)", v[-1], v, ov);
       v = strstr(v, ";");
     } else {
       v += 10;
-- 
2.43.0


From a47e8e751af55974ae77ba0b16747ee266579da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:30 +0000
Subject: [PATCH 63/72] fix: sqlite3 sessions can be removed

onion_sessions_remove saves a NULL dict, which the sqlite3 backend tried to
convert to JSON, crashing. It happens for example at the end of any request
that left the session empty.
---
 src/onion/sessions_sqlite3.c | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/onion/sessions_sqlite3.c b/src/onion/sessions_sqlite3.c
index cf3c1a5..fb1b0eb 100644
--- a/src/onion/sessions_sqlite3.c
+++ b/src/onion/sessions_sqlite3.c
@@ -41,6 +41,7 @@ typedef struct onion_session_sqlite3_t {
   sqlite3 *db;
   sqlite3_stmt *save;
   sqlite3_stmt *get;
+  sqlite3_stmt *remove;
 #ifdef HAVE_PTHREADS
   pthread_mutex_t mutex;
 #endif
@@ -55,6 +56,7 @@ static void onion_sessions_sqlite3_free(onion_sessions * sessions) {
 #endif
   sqlite3_finalize(p->save);
   sqlite3_finalize(p->get);
+  sqlite3_finalize(p->remove);
   sqlite3_close(p->db);
   onion_low_free(sessions->data);
 
@@ -100,8 +102,32 @@ static onion_dict *onion_sessions_sqlite3_get(onion_sessions * sessions,
   return ret;
 }
 
+/// Removes the session from the database
+static void onion_sessions_sqlite3_remove(onion_sessions * sessions,
+                                          const char *session_id) {
+  onion_session_sqlite3 *p = sessions->data;
+#ifdef HAVE_PTHREADS
+  pthread_mutex_lock(&p->mutex);
+#endif
+  sqlite3_reset(p->get);        // It may be still reading.
+  sqlite3_reset(p->remove);
+  int rc = sqlite3_bind_text(p->remove, 1, session_id, -1, SQLITE_STATIC);
+  if (rc == SQLITE_OK)
+    rc = sqlite3_step(p->remove);
+  if (rc != SQLITE_DONE)
+    ONION_ERROR("Error removing session (%d)", rc);
+  sqlite3_reset(p->remove);
+#ifdef HAVE_PTHREADS
+  pthread_mutex_unlock(&p->mutex);
+#endif
+}
+
 void onion_sessions_sqlite3_save(onion_sessions * sessions,
                                  const char *session_id, onion_dict * data) {
+  if (!data) {
+    onion_sessions_sqlite3_remove(sessions, session_id);
+    return;
+  }
   onion_block *bl = onion_dict_to_json(data);
 
   ONION_DEBUG0("Save session %s: %s", session_id, onion_block_data(bl));
@@ -151,6 +177,7 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
   sqlite3 *db;
   sqlite3_stmt *save;
   sqlite3_stmt *get;
+  sqlite3_stmt *remove;
   rc = sqlite3_open(database_filename, &db);
   if (rc) {
     ONION_ERROR("Can't open database: %s", sqlite3_errmsg(db));
@@ -178,6 +205,14 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
     return NULL;
   }
 
+  const char *REMOVE_SQL = "DELETE FROM sessions WHERE id=?";
+  rc = sqlite3_prepare_v2(db, REMOVE_SQL, strlen(REMOVE_SQL), &remove, NULL);
+  if (rc != SQLITE_OK) {
+    ONION_ERROR("Cant prepare statement to remove (%d)", rc);
+    sqlite3_close(db);
+    return NULL;
+  }
+
   onion_sessions *ret = onion_low_malloc(sizeof(onion_sessions));
 
   ret->data = onion_low_malloc(sizeof(onion_session_sqlite3));
@@ -189,6 +224,7 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
   p->db = db;
   p->save = save;
   p->get = get;
+  p->remove = remove;
 #ifdef HAVE_PTHREADS
   pthread_mutex_init(&p->mutex, NULL);
 #endif
-- 
2.43.0


From dd8ae35922110f11c4a73c9039f7e0191d935fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:32 +0000
Subject: [PATCH 64/72] fix: redis sessions can be removed

---
 src/onion/sessions_redis.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/onion/sessions_redis.c b/src/onion/sessions_redis.c
index 6b2bf9b..e73ffd2 100644
--- a/src/onion/sessions_redis.c
+++ b/src/onion/sessions_redis.c
@@ -109,16 +109,12 @@ static onion_dict *onion_sessions_redis_get(onion_sessions * sessions,
 
 void onion_sessions_redis_save(onion_sessions * sessions,
                                const char *session_id, onion_dict * data) {
-  onion_block *bl = onion_dict_to_json(data);
-
-  ONION_DEBUG0("Save session %s: %s", session_id, onion_block_data(bl));
-
   onion_session_redis *p = sessions->data;
 #ifdef HAVE_PTHREADS
   pthread_mutex_lock(&p->mutex);
 #endif
 
-  if (p == NULL) {
+  if (data == NULL) {
     redisReply *reply = redisCommand(p->context, "HDEL SESSIONS %b", session_id,
                                      strlen(session_id));
 
@@ -127,7 +123,9 @@ void onion_sessions_redis_save(onion_sessions * sessions,
     }
     freeReplyObject(reply);
   } else {
+    onion_block *bl = onion_dict_to_json(data);
     const char *json = onion_block_data(bl);
+    ONION_DEBUG0("Save session %s: %s", session_id, json);
     redisReply *reply =
         redisCommand(p->context, "HSET SESSIONS %b %b", session_id,
                      strlen(session_id), json, strlen(json));
-- 
2.43.0


From a7b572dfd58d76d678bd8000467d7d54a5f788c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:32 +0000
Subject: [PATCH 65/72] fix: redis sessions survive the loss of the redis
 connection

---
 src/onion/sessions_redis.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/onion/sessions_redis.c b/src/onion/sessions_redis.c
index e73ffd2..ca51f70 100644
--- a/src/onion/sessions_redis.c
+++ b/src/onion/sessions_redis.c
@@ -74,9 +74,10 @@ static onion_dict *onion_sessions_redis_get(onion_sessions * sessions,
       redisCommand(p->context, "HEXISTS SESSIONS %b", session_id,
                    strlen(session_id));
 
-  if (reply->type != REDIS_REPLY_INTEGER) {
+  if (!reply || reply->type != REDIS_REPLY_INTEGER) {
     ONION_ERROR("Error getting session_id");
-    freeReplyObject(reply);
+    if (reply)
+      freeReplyObject(reply);
     goto exit;
   } else {
     if (reply->integer == 1) {
@@ -85,9 +86,10 @@ static onion_dict *onion_sessions_redis_get(onion_sessions * sessions,
           redisCommand(p->context, "HGET SESSIONS %b", session_id,
                        strlen(session_id));
 
-      if (reply->type != REDIS_REPLY_STRING) {
+      if (!reply || reply->type != REDIS_REPLY_STRING) {
         ONION_ERROR("Error loading session.");
-        freeReplyObject(reply);
+        if (reply)
+          freeReplyObject(reply);
         goto exit;
       } else {
         ret = onion_dict_from_json(reply->str);
@@ -118,10 +120,11 @@ void onion_sessions_redis_save(onion_sessions * sessions,
     redisReply *reply = redisCommand(p->context, "HDEL SESSIONS %b", session_id,
                                      strlen(session_id));
 
-    if (reply->type != REDIS_REPLY_INTEGER) {
+    if (!reply || reply->type != REDIS_REPLY_INTEGER) {
       ONION_ERROR("Error removing session");
     }
-    freeReplyObject(reply);
+    if (reply)
+      freeReplyObject(reply);
   } else {
     onion_block *bl = onion_dict_to_json(data);
     const char *json = onion_block_data(bl);
@@ -130,10 +133,11 @@ void onion_sessions_redis_save(onion_sessions * sessions,
         redisCommand(p->context, "HSET SESSIONS %b %b", session_id,
                      strlen(session_id), json, strlen(json));
 
-    if (reply->type != REDIS_REPLY_INTEGER) {
+    if (!reply || reply->type != REDIS_REPLY_INTEGER) {
       ONION_ERROR("Error saving session");
     }
-    freeReplyObject(reply);
+    if (reply)
+      freeReplyObject(reply);
     onion_block_free(bl);
   }
 
-- 
2.43.0


From 3e85a3fa96c638d219f285276162100bcd5f498a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:33 +0000
Subject: [PATCH 66/72] fix: a PUT whose temporary file cannot be created is
 refused

---
 src/onion/request_parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index da18ffd..325b724 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -1170,8 +1170,10 @@ static onion_connection_status prepare_PUT(onion_request * req) {
 
   char filename[] = "/tmp/onion-XXXXXX";
   int fd = mkstemp(filename);
-  if (fd < 0)
+  if (fd < 0) {
     ONION_ERROR("Could not create temporary file at %s.", filename);
+    return OCS_INTERNAL_ERROR;
+  }
 
   onion_block_add_str(req->data, filename);
   ONION_DEBUG0("Creating PUT file %s (%d bytes long)", filename,
-- 
2.43.0


From b17b2fe178aa98c0a627c1829b8fdd1d93dc8ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:51 +0000
Subject: [PATCH 67/72] fix: a cookie without value does not hide the next one

---
 src/onion/request.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index b2fc4c1..10d4a30 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -698,7 +698,7 @@ onion_dict *onion_request_get_cookies_dict(onion_request * req) {
   char *p = cookies;
 
   while (*p) {
-    if (*p != ' ' && !key && !val) {
+    if (*p != ' ' && *p != ';' && !key && !val) {
       key = p;
     } else if (*p == '=' && key && !val) {
       *p = 0;
@@ -709,6 +709,8 @@ onion_dict *onion_request_get_cookies_dict(onion_request * req) {
       ONION_DEBUG0("Add cookie <%s>=<%s>", key, val);
       val = NULL;
       key = NULL;
+    } else if (*p == ';') {     // No value, not a cookie.
+      key = NULL;
     }
     p++;
   }
-- 
2.43.0


From 5f2c2843d8bc094de749dd8f705bd1df24df32c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:18 +0000
Subject: [PATCH 68/72] fix: the multipart boundary may be quoted and followed
 by other parameters

---
 src/onion/request_parser.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 325b724..3e30345 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -1087,10 +1087,16 @@ static onion_connection_status prepare_POST(onion_request * req) {
     return OCS_INTERNAL_ERROR;
   }
   mp_token += 9;
+  int mp_token_size;
+  if (*mp_token == '"') {       // May be quoted,
+    mp_token++;
+    mp_token_size = strcspn(mp_token, "\"");
+  } else                        // and other parameters may follow.
+    mp_token_size = strcspn(mp_token, "; \t");
+
   if (cl > req->connection.listen_point->server->max_post_size) // I hope the missing part is files, else error later.
     cl = req->connection.listen_point->server->max_post_size;
 
-  int mp_token_size = strlen(mp_token);
   token->extra_size = cl;       // Max size of the multipart->data
   onion_multipart_buffer *multipart =
       onion_low_malloc(token->extra_size + sizeof(onion_multipart_buffer) +
@@ -1107,7 +1113,8 @@ static onion_connection_status prepare_POST(onion_request * req) {
   multipart->boundary[1] = '\n';
   multipart->boundary[2] = '-';
   multipart->boundary[3] = '-';
-  strcpy(&multipart->boundary[4], mp_token);
+  memcpy(&multipart->boundary[4], mp_token, mp_token_size);
+  multipart->boundary[multipart->size] = '\0';
   multipart->data =
       (char *)multipart + sizeof(onion_multipart_buffer) + multipart->size + 2;
 
-- 
2.43.0


From a0831017d148556272f2b7d1a5ac66eee0116d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:53 +0000
Subject: [PATCH 69/72] fix: names of multipart parts may hold a semicolon, or
 text that looks like another name

---
 src/onion/request_parser.c | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 3e30345..a6190c8 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -564,12 +564,34 @@ static onion_connection_status parse_POST_multipart_headers_key(onion_request *
                                                                 onion_buffer *
                                                                 data);
 
+/// Reads a parameter of a header, until ';' or the end of line. A ';' between quotes is part of the parameter.
+static int token_read_PARAMETER(onion_token * token, onion_buffer * data) {
+  for (;;) {
+    int res = token_read_until(token, data, ';');
+    if (res != STRING)
+      return res;
+    int quotes = 0;
+    size_t l;
+    for (l = 0; token->str[l]; l++)
+      if (token->str[l] == '"')
+        quotes++;
+    if ((quotes & 1) == 0)
+      return res;
+    token->str[l++] = ';';
+    token->pos = l;
+    if (l >= (sizeof(token->str) - 1)) {
+      ONION_ERROR("Token too long to parse it.");
+      return OCS_INTERNAL_ERROR;
+    }
+  }
+}
+
 static onion_connection_status parse_POST_multipart_content_type(onion_request *
                                                                  req,
                                                                  onion_buffer *
                                                                  data) {
   onion_token *token = req->parser_data;
-  int res = token_read_until(token, data, ';');
+  int res = token_read_PARAMETER(token, data);
 
   if (res <= 1000)
     return res;
@@ -577,9 +599,10 @@ static onion_connection_status parse_POST_multipart_content_type(onion_request *
   //ONION_DEBUG("Got content type %s",token->str);
 
   onion_multipart_buffer *multipart = (onion_multipart_buffer *) token->extra;
-  const char *name;
-  name = strstr(token->str, "filename=");
-  if (name) {
+  const char *name = token->str;
+  while (is_space(*name))
+    name++;
+  if (strncmp(name, "filename=", 9) == 0) {
     size_t l = strlen(name + 9);
     if (l + 1 > multipart->post_total_size) {
       ONION_ERROR("Post buffer exhausted. content-Length wrong passed.");
@@ -597,8 +620,7 @@ static onion_connection_status parse_POST_multipart_content_type(onion_request *
     }
     ONION_DEBUG0("Set filename '%s'", multipart->filename);
   } else {
-    name = strstr(token->str, "name=");
-    if (name) {
+    if (strncmp(name, "name=", 5) == 0) {
       size_t l = strlen(name + 5);
       if (l + 1 > multipart->post_total_size) {
         ONION_ERROR("Post buffer exhausted. Content-Length had wrong size.");
-- 
2.43.0


From e7f1c98f84173176e7e20068a940060efe3e67b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:55 +0000
Subject: [PATCH 70/72] fix: a directory listing skips entries it can not look
 at, instead of listing them with whatever was in memory

---
 src/onion/handlers/exportlocal.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index 5ed6239..67e5c72 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -188,13 +188,14 @@ int onion_handler_export_local_directory(onion_handler_export_local_data * data,
 
   struct dirent *fi;
   struct stat st;
-  char temp[1024];
+  char temp[PATH_MAX];
   struct passwd *pwd;
   while ((fi = readdir(dir)) != NULL) {
     if (fi->d_name[0] == '.')
       continue;
-    snprintf(temp, sizeof(temp), "%s/%s", realp, fi->d_name);
-    stat(temp, &st);
+    if (snprintf(temp, sizeof(temp), "%s/%s", realp, fi->d_name) >=
+        sizeof(temp) || stat(temp, &st) != 0)   // Nothing known about it, for example a broken link.
+      continue;
     pwd = getpwuid(st.st_uid);
 
     if (S_ISDIR(st.st_mode))
-- 
2.43.0


From 1f5d5e397db50df4d09ae294825de1bd8ecd5df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:56 +0000
Subject: [PATCH 71/72] fix: auth_pam: do not crash on credentials that are not
 base64

---
 src/onion/handlers/auth_pam.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onion/handlers/auth_pam.c b/src/onion/handlers/auth_pam.c
index 4be8fa1..0492fec 100644
--- a/src/onion/handlers/auth_pam.c
+++ b/src/onion/handlers/auth_pam.c
@@ -58,9 +58,11 @@ int onion_handler_auth_pam_handler(onion_handler_auth_pam_data * d,
   char *auth = NULL;
   char *username = NULL;
   char *passwd = NULL;
-  if (o && strncmp(o, "Basic", 5) == 0) {
+  if (o && strncmp(o, "Basic ", 6) == 0) {
     //fprintf(stderr,"auth: '%s'\n",&o[6]);
     auth = onion_base64_decode(&o[6], NULL);
+  }
+  if (auth) {                   // NULL if it was not base64
     username = auth;
     int i = 0;
     while (auth[i] != '\0' && auth[i] != ':')
-- 
2.43.0


From 0f11a5d1804d547d77a64e779eba9fe58d5caf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:06 +0000
Subject: [PATCH 72/72] fix: auth_pam: a long realm does not fit in 256 bytes

---
 src/onion/handlers/auth_pam.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onion/handlers/auth_pam.c b/src/onion/handlers/auth_pam.c
index 0492fec..e4ca88a 100644
--- a/src/onion/handlers/auth_pam.c
+++ b/src/onion/handlers/auth_pam.c
@@ -93,9 +93,11 @@ int onion_handler_auth_pam_handler(onion_handler_auth_pam_data * d,
     onion_low_free(auth);
 
   // Not authorized. Ask for it.
-  char temp[256];
+  char *temp =
+      onion_low_scalar_malloc(strlen(d->realm) + sizeof("Basic realm=\"\""));
   sprintf(temp, "Basic realm=\"%s\"", d->realm);
   onion_response_set_header(res, "WWW-Authenticate", temp);
+  onion_low_free(temp);
   onion_response_set_code(res, HTTP_UNAUTHORIZED);
   onion_response_set_length(res, sizeof(RESPONSE_UNAUTHORIZED));
 
-- 
2.43.0

