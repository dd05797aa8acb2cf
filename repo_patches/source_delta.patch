From 8646a0b64eca630074fffc5f1248cc476dd8b584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:03 +0000
Subject: [PATCH 01/97] fix: keep the source string alive while a string is
 replaced by a value derived from itself

---
 src/nx_string.c       | 8 +++-----
 src/nx_string_array.c | 3 ++-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/nx_string.c b/src/nx_string.c
index a3acffc..184f609 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -49,12 +49,10 @@ char *nx_strdup(const char *s)
 
 void nx_strredup(char **dest, const char *src)
 {
-        nx_free(*dest);
+        char *cpy = (src == NULL) ? NULL : nx_strdup(src);
 
-        if (src == NULL)
-                *dest = NULL;
-        else
-                *dest = nx_strdup(src);
+        nx_free(*dest);
+        *dest = cpy;
 }
 
 char *nx_fstr(const char* format, ...)
diff --git a/src/nx_string_array.c b/src/nx_string_array.c
index 68fff42..c732292 100644
--- a/src/nx_string_array.c
+++ b/src/nx_string_array.c
@@ -139,8 +139,9 @@ void nx_string_array_vsetf(struct NXStringArray *sa, int id, const char *fmt, va
         NX_ASSERT(id >= 0 && id < sa->size);
         NX_ASSERT_PTR(fmt);
 
+        char *s = nx_vfstr(fmt, args);
         nx_free(sa->elems[id]);
-        sa->elems[id] = nx_vfstr(fmt, args);
+        sa->elems[id] = s;
 }
 
 int nx_string_array_append(struct NXStringArray *sa, const char *s)
-- 
2.43.0


From 6e0d9ee530abed48280e92e02cef865164c81ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:03 +0000
Subject: [PATCH 02/97] fix: skip unset elements when searching a string array

---
 src/nx_string_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_string_array.c b/src/nx_string_array.c
index c732292..7b31d0b 100644
--- a/src/nx_string_array.c
+++ b/src/nx_string_array.c
@@ -180,7 +180,7 @@ int nx_string_array_find(const struct NXStringArray *sa, const char *s)
         NX_ASSERT_PTR(s);
 
         for (int i = 0; i < sa->size; ++i)
-                if (strcmp(s, sa->elems[i]) == 0)
+                if (sa->elems[i] && strcmp(s, sa->elems[i]) == 0)
                         return i;
 
         return -1;
-- 
2.43.0


From 49fe65a15ee2aa0d89f322d3cbf4ec0f1479f755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:03 +0000
Subject: [PATCH 03/97] fix: reject invalid lengths when reading strings and
 string arrays

---
 src/nx_string.c       | 3 +++
 src/nx_string_array.c | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/nx_string.c b/src/nx_string.c
index 184f609..53cc56e 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -118,6 +118,9 @@ int nx_strread(char **s, size_t size, FILE *stream)
         if (fread(&ls, sizeof(ls), 1, stream) != 1)
                 return 1;
 
+        if (ls == (size_t)-1)
+                return 1;
+
         if (ls >= size)
                 *s = nx_xrealloc(*s, (ls+1)*sizeof(**s));
 
diff --git a/src/nx_string_array.c b/src/nx_string_array.c
index 7b31d0b..44623fe 100644
--- a/src/nx_string_array.c
+++ b/src/nx_string_array.c
@@ -223,6 +223,11 @@ int nx_string_array_read(struct NXStringArray *sa, FILE *stream)
                 return -1;
         }
 
+        if (size < 0) {
+                NX_ERROR(NX_LOG_TAG, "Invalid string array length %d in stream", size);
+                return -1;
+        }
+
         nx_string_array_resize(sa, size);
         for (int i = 0; i < sa->size; ++i)
                 if (nx_strread(&sa->elems[i], 0, stream) != 0) {
-- 
2.43.0


From 2f7aa475182c2fb705bbe0cb9ae4bcba9e0d24a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:03 +0000
Subject: [PATCH 04/97] fix: do not pass a NULL destination to memcpy when
 copying an empty memory block

---
 src/nx_mem_block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_mem_block.c b/src/nx_mem_block.c
index b8e3323..75398f0 100644
--- a/src/nx_mem_block.c
+++ b/src/nx_mem_block.c
@@ -151,7 +151,7 @@ void *nx_mem_block_copy(struct NXMemBlock *dest, const struct NXMemBlock *src)
 
         nx_mem_block_resize(dest, src->size);
 
-        if (src->ptr) {
+        if (src->ptr && dest->size > 0) {
                 memcpy(dest->ptr, src->ptr, dest->size);
         }
 
-- 
2.43.0


From 5c35b9a979d097211e61939c8cae3dffe43f7b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:10 +0000
Subject: [PATCH 05/97] fix: create false and null JSON nodes with their own
 types

---
 src/nx_json_tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_json_tree.c b/src/nx_json_tree.c
index 669c302..5003dd6 100644
--- a/src/nx_json_tree.c
+++ b/src/nx_json_tree.c
@@ -186,12 +186,12 @@ struct NXJSONNode *nx_json_node_new_true()
 
 struct NXJSONNode *nx_json_node_new_false()
 {
-        return nx_json_node_new_constant(NX_JNT_TRUE);
+        return nx_json_node_new_constant(NX_JNT_FALSE);
 }
 
 struct NXJSONNode *nx_json_node_new_null()
 {
-        return nx_json_node_new_constant(NX_JNT_TRUE);
+        return nx_json_node_new_constant(NX_JNT_NULL);
 }
 
 void nx_json_tree_free(struct NXJSONNode *root)
-- 
2.43.0


From 8ca0ebef6019283c9e23c57d245ac1edc90b30e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:10 +0000
Subject: [PATCH 06/97] fix: free sibling JSON nodes iteratively so that long
 arrays do not exhaust the stack

---
 src/nx_json_tree.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nx_json_tree.c b/src/nx_json_tree.c
index 5003dd6..bcdca02 100644
--- a/src/nx_json_tree.c
+++ b/src/nx_json_tree.c
@@ -196,11 +196,12 @@ struct NXJSONNode *nx_json_node_new_null()
 
 void nx_json_tree_free(struct NXJSONNode *root)
 {
-        if (root != NULL) {
+        while (root != NULL) {
+                struct NXJSONNode *next = root->right;
                 nx_json_tree_free(root->down);
-                nx_json_tree_free(root->right);
                 nx_free(root->text);
                 nx_free(root);
+                root = next;
         }
 }
 
-- 
2.43.0


From ce3edca8687d535b021b445cc2f16cd91ae1d2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:10 +0000
Subject: [PATCH 07/97] fix: do not return the first JSON array element for a
 negative position

---
 src/nx_json_tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_json_tree.c b/src/nx_json_tree.c
index bcdca02..a7caef7 100644
--- a/src/nx_json_tree.c
+++ b/src/nx_json_tree.c
@@ -238,7 +238,7 @@ int nx_json_node_n_children(struct NXJSONNode *node)
 
 struct NXJSONNode *nx_json_array_get(struct NXJSONNode *jarray, int position, int type)
 {
-        if (!nx_json_node_is(jarray, NX_JNT_ARRAY))
+        if (!nx_json_node_is(jarray, NX_JNT_ARRAY) || position < 0)
             return NULL;
 
         struct NXJSONNode *n = jarray->down;
-- 
2.43.0


From e319936da4d741be9485bdf596a736cde8a1dd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:10 +0000
Subject: [PATCH 08/97] fix: treat lexer input as unsigned bytes so that 0xFF
 is not taken for the end of text

---
 src/nx_lexer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_lexer.c b/src/nx_lexer.c
index 6df82be..4661758 100644
--- a/src/nx_lexer.c
+++ b/src/nx_lexer.c
@@ -143,7 +143,7 @@ int nx_lexer_consume(struct NXLexer *lex)
         if (lex->c == EOF)
                 return lex->c;
 
-        lex->c = lex->text[++lex->pos];
+        lex->c = (unsigned char)lex->text[++lex->pos];
         if (lex->c == '\0')
                 lex->c = EOF;
 
@@ -171,7 +171,7 @@ NXBool nx_lexer_match(struct NXLexer *lex, const char *s)
 
         int n = strlen(s);
         while (n--) {
-                if (lex->c == *s) {
+                if (lex->c == (unsigned char)*s) {
                         nx_lexer_consume(lex);
                 } else {
                         load_lexer_state(lex, &start_state);
-- 
2.43.0


From eb0d19664996a1ade1e5e8ec6ccdec58806e15fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:11 +0000
Subject: [PATCH 09/97] fix: decode the escaped solidus that the lexer accepts
 in quoted strings

---
 src/nx_string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nx_string.c b/src/nx_string.c
index 53cc56e..8675966 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -169,6 +169,7 @@ char *nx_xstr_from_readable(size_t size, const char *readable)
                         case 'f': *(p++) = '\f'; break;
                         case 'b': *(p++) = '\b'; break;
                         case '"': *(p++) = '"'; break;
+                        case '/': *(p++) = '/'; break;
                         default:
                                 NX_FATAL(NX_LOG_TAG, "Unexpected control character '%c' in readable string!", *readable);
                         }
-- 
2.43.0


From 0f4dee821519efc3c5510a3c73b8b21af04c4cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:11 +0000
Subject: [PATCH 10/97] fix: bundle floating-point numbers with enough digits
 to restore them exactly

---
 src/nx_json_bundle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_json_bundle.c b/src/nx_json_bundle.c
index bcf151d..281646d 100644
--- a/src/nx_json_bundle.c
+++ b/src/nx_json_bundle.c
@@ -71,7 +71,7 @@ struct NXJSONNode *nx_json_bundle_float(float f)
 
 struct NXJSONNode *nx_json_bundle_double(double d)
 {
-        char *s = nx_fstr("%e", d);
+        char *s = nx_fstr("%.16e", d);
         struct NXJSONNode *n = nx_json_node_new_fpnumber(s);
         nx_free(s);
         return n;
-- 
2.43.0


From 5c6609684c2474abfd3127b75e76afe4ee49f149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:11 +0000
Subject: [PATCH 11/97] fix: bundle and restore the full range of sizes and
 keypoint ids

---
 src/nx_json_bundle.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nx_json_bundle.c b/src/nx_json_bundle.c
index 281646d..c904038 100644
--- a/src/nx_json_bundle.c
+++ b/src/nx_json_bundle.c
@@ -58,7 +58,7 @@ struct NXJSONNode *nx_json_bundle_int(int i)
 
 struct NXJSONNode *nx_json_bundle_size_t(size_t z)
 {
-        char *s = nx_fstr("%zd", z);
+        char *s = nx_fstr("%zu", z);
         struct NXJSONNode *n = nx_json_node_new_integer(s);
         nx_free(s);
         return n;
@@ -126,7 +126,7 @@ struct NXJSONNode *nx_json_bundle_keypoint(const struct NXKeypoint* key)
         nx_json_object_add(jkey, "sigma", nx_json_bundle_double(key->sigma));
         nx_json_object_add(jkey, "score", nx_json_bundle_double(key->score));
         nx_json_object_add(jkey, "ori", nx_json_bundle_double(key->ori));
-        nx_json_object_add(jkey, "id", nx_json_bundle_int(key->id));
+        nx_json_object_add(jkey, "id", nx_json_bundle_size_t(key->id));
 
         return jkey;
 }
@@ -178,7 +178,7 @@ size_t nx_json_unbundle_size_t(struct NXJSONNode *node)
         NX_ASSERT_PTR(node);
         NX_ASSERT(nx_json_node_is_a(node, NX_JNT_INTEGER));
 
-        return (size_t)atol(nx_json_node_text(node));
+        return (size_t)strtoull(nx_json_node_text(node), NULL, 10);
 }
 
 float nx_json_unbundle_float(struct NXJSONNode *node)
@@ -282,7 +282,7 @@ struct NXKeypoint nx_json_unbundle_keypoint(struct NXJSONNode* node)
         key.sigma = nx_json_unbundle_double(nx_json_object_fget(node, "sigma",  NX_JNT_FPNUMBER));
         key.score = nx_json_unbundle_double(nx_json_object_fget(node, "score",  NX_JNT_FPNUMBER));
         key.ori = nx_json_unbundle_double(nx_json_object_fget(node, "ori",  NX_JNT_FPNUMBER));
-        key.id = nx_json_unbundle_int(nx_json_object_fget(node, "id",  NX_JNT_INTEGER));
+        key.id = nx_json_unbundle_size_t(nx_json_object_fget(node, "id",  NX_JNT_INTEGER));
 
         return key;
 }
-- 
2.43.0


From 71e5f1e23603c2df6c13bc68211aefc0a8e942e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:29 +0000
Subject: [PATCH 12/97] fix: advance over the columns when converting loaded
 CSV strings to factors

---
 src/nx_data_frame.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_data_frame.c b/src/nx_data_frame.c
index 7238772..9e1f6ac 100644
--- a/src/nx_data_frame.c
+++ b/src/nx_data_frame.c
@@ -636,7 +636,7 @@ struct NXDataFrame *nx_data_frame_load_csv_stream(FILE *stream,
         struct NXDataFrame *df = nx_csv_parser_parse(cp);
 
         if (strings_as_factors) {
-                for (int col_id = 0; col_id < df->columns->size; ++i) {
+                for (int col_id = 0; col_id < df->columns->size; ++col_id) {
                         if (nx_data_frame_column(df, col_id)->type == NX_DCT_STRING)
                                 nx_data_frame_make_factor(df, col_id);
                 }
-- 
2.43.0


From 02449a376e924a06eb6fe619000ea65e50482a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:29 +0000
Subject: [PATCH 13/97] fix: quote data frame column labels the way the CSV
 reader expects

---
 src/nx_data_frame.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_data_frame.c b/src/nx_data_frame.c
index 9e1f6ac..56d81a4 100644
--- a/src/nx_data_frame.c
+++ b/src/nx_data_frame.c
@@ -522,7 +522,7 @@ NXBool nx_data_frame_fprintf(const struct NXDataFrame *df, FILE *stream,
         int nc = nx_data_frame_n_columns(df);
         for (int i = 0; i < nc; ++i) {
                 const struct NXDataColumn *dc = nx_data_frame_column(df, i);
-                if (EOF == nx_fputs_readable(nx_data_column_label(dc), stream)) {
+                if (EOF == nx_fputs_double_quoted(nx_data_column_label(dc), stream)) {
                         NX_ERROR(NX_LOG_TAG, "Error printing label of data frame for column %d", i);
                         return NX_FALSE;
                 }
-- 
2.43.0


From 7302548e48acb1a28d37d1cb2501d6d17bf84e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:29 +0000
Subject: [PATCH 14/97] fix: copy a data frame string before releasing the cell
 it may come from

---
 src/nx_data_frame.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nx_data_frame.c b/src/nx_data_frame.c
index 56d81a4..86071e9 100644
--- a/src/nx_data_frame.c
+++ b/src/nx_data_frame.c
@@ -445,8 +445,9 @@ void nx_data_frame_set_string(struct NXDataFrame *df, int row_id, int col_id,
 
         struct NXDataColumn *dc = df->columns->elems[col_id];
         CHECK_DATA_COLUMN_TYPE(dc,NX_DCT_STRING);
+        char *elem_ptr = nx_strdup(value);
         NA_DATA_FRAME_ELEMENT(dc,row_id);
-        dc->elems[row_id] = nx_strdup(value);
+        dc->elems[row_id] = (void *)elem_ptr;
 }
 
 void nx_data_frame_set_int(struct NXDataFrame *df, int row_id, int col_id,
-- 
2.43.0


From 7dedb70a82694bd3930c8b515e8cf72b69a071b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:29 +0000
Subject: [PATCH 15/97] fix: detect CSV integers in the base their values are
 read in

---
 src/nx_csv_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_csv_parser.c b/src/nx_csv_parser.c
index 0631856..ec88df9 100644
--- a/src/nx_csv_parser.c
+++ b/src/nx_csv_parser.c
@@ -41,7 +41,7 @@ static inline enum NXDataColumnType nx_csv_field_type_from_token_text(const char
                 return NX_DCT_BOOL;
 
         char *endptr;
-        long lv = strtol(text, &endptr, 0);
+        long lv = strtol(text, &endptr, 10);
         if (*endptr == '\0' && lv <= INT_MAX && lv >= INT_MIN)
                 return NX_DCT_INT;
 
-- 
2.43.0


From b1a79ff84c8e5178813ce6601092591f78474541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:29 +0000
Subject: [PATCH 16/97] fix: accept denormal CSV numbers as doubles

---
 src/nx_csv_parser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nx_csv_parser.c b/src/nx_csv_parser.c
index ec88df9..2957a06 100644
--- a/src/nx_csv_parser.c
+++ b/src/nx_csv_parser.c
@@ -46,8 +46,9 @@ static inline enum NXDataColumnType nx_csv_field_type_from_token_text(const char
                 return NX_DCT_INT;
 
         errno = 0;
-        strtod(text, &endptr);
-        if (errno != ERANGE && *endptr == '\0')
+        double dv = strtod(text, &endptr);
+        NXBool is_overflow = errno == ERANGE && (dv > 1.0 || dv < -1.0);
+        if (!is_overflow && *endptr == '\0')
                 return NX_DCT_DOUBLE;
 
         return NX_DCT_STRING;
-- 
2.43.0


From 2a289cde9134aadf88ba676da67fd532c9949a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:29 +0000
Subject: [PATCH 17/97] fix: read an empty record of a single column CSV as a
 missing cell

---
 src/nx_csv_parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nx_csv_parser.c b/src/nx_csv_parser.c
index 2957a06..c8cc7ff 100644
--- a/src/nx_csv_parser.c
+++ b/src/nx_csv_parser.c
@@ -309,7 +309,9 @@ static struct NXCSVRecord *nx_csv_parser_parse_record(struct NXCSVParser *cp, st
 {
         struct NXCSVRecord *r = nx_csv_record_new(data);
 
-        if (cp->token->type == NX_CTT_EOR) {
+        if (cp->token->type == NX_CTT_EOR && data->n_columns == 1) {
+                nx_csv_record_add_field_from_token(r, NULL);
+        } else if (cp->token->type == NX_CTT_EOR) {
                 NX_FATAL(NX_LOG_TAG, "Empty record %d while parsing CSV", data->size);
         } else if (cp->token->type == NX_CTT_COMMA) {
                 nx_csv_record_add_field_from_token(r, NULL);
-- 
2.43.0


From 2ce24ef1cba5e2cc04aad02332f40fb9fae801f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:24 +0000
Subject: [PATCH 18/97] fix: hash option names without signed overflow

---
 src/nx_options.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_options.c b/src/nx_options.c
index f4486db..af447f2 100644
--- a/src/nx_options.c
+++ b/src/nx_options.c
@@ -756,12 +756,12 @@ int nx_options_hash_code(const char *key)
 {
         NX_ASSERT_PTR(key);
 
-        int hash = 0;
+        unsigned int hash = 0;
         while (*key != '\0') {
                 hash = hash * 31 + *key;
                 ++key;
         }
-        return hash;
+        return (int)hash;
 }
 
 void nx_options_free_rest(struct NXOptions *opt)
-- 
2.43.0


From 4fd3bd96d058bcd54f00371a97fb744f547f5a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:28 +0000
Subject: [PATCH 19/97] fix: honour the declared default of Python boolean
 options

---
 pyvirg/virg/nexus/options.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvirg/virg/nexus/options.py b/pyvirg/virg/nexus/options.py
index fc487aa..1e736cb 100644
--- a/pyvirg/virg/nexus/options.py
+++ b/pyvirg/virg/nexus/options.py
@@ -36,6 +36,7 @@ class OptionItem:
         names = filter(lambda x: x is not None, names)
         if self.type_of is bool:
             parser.add_argument(*names, action='store_true',
+                                default=bool(self.default_value),
                                 help=self.help_str)
         else:
             parser.add_argument(*names, type=self.type_of,
-- 
2.43.0


From 844d22b257ddf29695417822f0a3c6e0435fec92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:28 +0000
Subject: [PATCH 20/97] fix: write Python option values so that YAML reads back
 the same values

---
 pyvirg/virg/nexus/options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvirg/virg/nexus/options.py b/pyvirg/virg/nexus/options.py
index 1e736cb..a132c94 100644
--- a/pyvirg/virg/nexus/options.py
+++ b/pyvirg/virg/nexus/options.py
@@ -27,8 +27,8 @@ class OptionItem:
         self.key_name = key_name.replace('-', '_')
 
     def __str__(self):
-        return self.key_name + ': ' + \
-            (str(self.value) if self.value is not None else 'null')
+        return yaml.dump({ self.key_name: self.value },
+                         default_flow_style=False).rstrip('\n')
 
     def add_as_argument(self, parser):
         names = ['-' + self.short_name if self.short_name else None,
-- 
2.43.0


From f57ca49d1ebab90afc44985165de05cedb11695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:28 +0000
Subject: [PATCH 21/97] fix: accept YAML option files without any values

---
 pyvirg/virg/nexus/options.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyvirg/virg/nexus/options.py b/pyvirg/virg/nexus/options.py
index a132c94..8c3f4db 100644
--- a/pyvirg/virg/nexus/options.py
+++ b/pyvirg/virg/nexus/options.py
@@ -111,8 +111,7 @@ class Options:
         if res.from_yaml is None:
             dict = vars(res)
         else:
-            with open(res.from_yaml) as fin:
-                dict = yaml.load(fin, Loader=yaml.Loader)
+            dict = self._read_yaml(res.from_yaml)
 
         self.from_dict(dict)
 
@@ -134,8 +133,12 @@ class Options:
             print(str(self), file=fout, end='')
 
     def load_yaml(self, filename):
-        with open(filename) as fin:
-            dict = yaml.load(fin, Loader=yaml.Loader)
-
+        dict = self._read_yaml(filename)
         self.from_dict(dict)
         return dict
+
+    @staticmethod
+    def _read_yaml(filename):
+        with open(filename) as fin:
+            values = yaml.load(fin, Loader=yaml.Loader)
+        return values if values is not None else {}
-- 
2.43.0


From 513efa5eeff77f5e596de338ff1d9661f05341c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:28 +0000
Subject: [PATCH 22/97] fix: do not share default option lists between Python
 option sets

---
 pyvirg/virg/nexus/options.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyvirg/virg/nexus/options.py b/pyvirg/virg/nexus/options.py
index 8c3f4db..f4d1174 100644
--- a/pyvirg/virg/nexus/options.py
+++ b/pyvirg/virg/nexus/options.py
@@ -49,9 +49,9 @@ class OptionGroup:
     It exists mostly for pretty printing when exporting to other formats such as
     YAML.
     """
-    def __init__(self, title, items=[]):
+    def __init__(self, title, items=None):
         self.title = title
-        self.items = items
+        self.items = items if items is not None else []
 
     def __getitem__(self, idx):
         return self.items[idx]
@@ -83,8 +83,8 @@ class Options:
     Args:
         options (list of :class:`OptionGroup`): option items
     """
-    def __init__(self, options=[]):
-        self.options = options
+    def __init__(self, options=None):
+        self.options = options if options is not None else []
 
     def __str__(self):
         return ''.join([str(g) for g in self.options])
-- 
2.43.0


From 7eb7048cb155cf05f9cac19e4f23e94352c6a3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:38 +0000
Subject: [PATCH 23/97] fix: rotate by zero or by more than the word size
 without undefined shifts

---
 include/virg/nexus/nx_bit_ops.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/virg/nexus/nx_bit_ops.h b/include/virg/nexus/nx_bit_ops.h
index 3620dfa..d171e62 100644
--- a/include/virg/nexus/nx_bit_ops.h
+++ b/include/virg/nexus/nx_bit_ops.h
@@ -39,12 +39,14 @@ int nx_bit_count64(uint64_t x);
 
 static inline uint32_t nx_rotr32(uint32_t x, uint8_t n)
 {
-        return (x >> n) | (x << (32 - n));
+        n &= 31;
+        return (x >> n) | (x << ((32 - n) & 31));
 }
 
 static inline uint64_t nx_rotr64(uint64_t x, uint8_t n)
 {
-        return (x >> n) | (x << (64 - n));
+        n &= 63;
+        return (x >> n) | (x << ((64 - n) & 63));
 }
 
 static inline void nx_split_big_endian32(uint8_t *bytep, uint32_t x) {
-- 
2.43.0


From 6a3ab715f411a40fabc4078b0153d5ca495f2455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:27 +0000
Subject: [PATCH 24/97] fix: do not read past the piece lengths once all pieces
 are copied

---
 src/nx_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_string.c b/src/nx_string.c
index 8675966..3812a48 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -220,7 +220,7 @@ size_t nx_memncpy_multi(void *dest, int n_src, const void * const *src,
         NX_ASSERT_PTR(src_offset);
         NX_ASSERT_PTR(offset);
 
-        if (*offset > l_src[*src_offset]) {
+        if (*src_offset < n_src && *offset > l_src[*src_offset]) {
                 *offset = 0;
                 *src_offset += 1;
         }
-- 
2.43.0


From 34d2262f784cf6cf8ed39443033bcf3d8ba54cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:05 +0000
Subject: [PATCH 25/97] fix: compute image storage sizes without integer
 overflow

---
 src/nx_image.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index ba7cca4..1934c9f 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -28,6 +28,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <float.h>
+#include <limits.h>
 
 #include "virg/nexus/nx_assert.h"
 #include "virg/nexus/nx_alloc.h"
@@ -131,11 +132,14 @@ void nx_image_resize(struct NXImage *img, int width, int height, int row_stride,
                 return;
 
         int n_ch = nx_image_n_channels(type);
+        if (width < 0 || height < 0 || width > INT_MAX / n_ch)
+                NX_FATAL(NX_LOG_TAG, "Invalid image size %dx%d!", width, height);
+
         int rs = n_ch * width;
         if (row_stride < rs)
                 row_stride = rs;
 
-        size_t length = row_stride * height;
+        size_t length = (size_t)row_stride * height;
         size_t n_bytes = nx_image_bytes_per_channel(dtype);
         nx_mem_block_resize(img->mem, length*n_bytes);
 
@@ -501,7 +505,7 @@ void nx_image_wrap(struct NXImage *img, void *data, int width, int height,
         NX_ASSERT(row_stride >= width);
 
         size_t n_bytes = nx_image_bytes_per_channel(dtype);
-        size_t sz = row_stride * height * n_bytes;
+        size_t sz = (size_t)row_stride * height * n_bytes;
         nx_mem_block_wrap(img->mem, data, sz, sz, own_memory);
 
         img->width = width;
-- 
2.43.0


From fe9e9dc92967dc6aee9bc6c598cde08c5ea749c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:05 +0000
Subject: [PATCH 26/97] fix: clamp float to uchar image conversion to the valid
 range

---
 src/nx_image.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index 1934c9f..5a76b8f 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -413,8 +413,11 @@ static void nx_image_convert_f32_to_uc(struct NXImage* dest, const struct NXImag
                 const float *rsrc = src->data.f32 + y * src->row_stride;
                 uchar *rdest = dest->data.uc + y * dest->row_stride;
                 for (int x = 0; x < dest->width; ++x) {
-                        int value = rsrc[x] * 255.0f;
-                        value = nx_min_i(0, nx_max_i(255, value));
+                        float value = rsrc[x] * 255.0f;
+                        if (!(value > 0.0f))
+                                value = 0.0f;
+                        else if (value > 255.0f)
+                                value = 255.0f;
                         rdest[x] = value;
                 }
         }
-- 
2.43.0


From 934511eff57c74697341d270409e6f98553329e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:05 +0000
Subject: [PATCH 27/97] fix: consider every pixel for both extremes when
 normalising an image

---
 src/nx_image.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index 5a76b8f..9d1d033 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -217,10 +217,12 @@ void nx_image_normalize_to_zero_one(struct NXImage *img, NXBool symmetric_around
                 float *row = img->data.f32 + y*img->row_stride;
                 for (int x = 0; x < img->width; ++x) {
                         for (int c = 0; c < nc; ++c)
+                        {
                                 if (row[nc*x+c] < vmin)
                                         vmin = row[nc*x+c];
-                                else if (row[nc*x+c] > vmax)
+                                if (row[nc*x+c] > vmax)
                                         vmax = row[nc*x+c];
+                        }
                 }
         }
         /* NX_LOG("D", "min and max values are %.12f and %.12f", vmin, vmax); */
-- 
2.43.0


From d58e8c75ef39f36299d8ff00b9c8582370a10a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:05 +0000
Subject: [PATCH 28/97] fix: saturate uchar image scaling before converting to
 integer

---
 src/nx_image.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index 9d1d033..6cb1ec7 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -268,11 +268,11 @@ void nx_image_axpy_uc(struct NXImage *img, float a, float y)
                 uchar *row = img->data.uc + yc*img->row_stride;
                 for (int xc = 0; xc < img->width; ++xc) {
                         for (int c = 0; c < nc; ++c) {
-                                int p = a * row[nc * xc + c] + y;
-                                if (p < 0)
-                                        p = 0;
-                                else if (p > 255) {
-                                        p = 255;
+                                float p = a * row[nc * xc + c] + y;
+                                if (!(p > 0.0f))
+                                        p = 0.0f;
+                                else if (p > 255.0f) {
+                                        p = 255.0f;
                                 }
                                 row[nc * xc + c] = p;
                         }
-- 
2.43.0


From 4dfebed7a6b695e89aecbc2cce8a2ddfc2da4cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:05 +0000
Subject: [PATCH 29/97] fix: image derivatives of padded and of one pixel wide
 or high images

---
 src/nx_image.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index 6cb1ec7..aa37eca 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -1207,6 +1207,11 @@ void nx_image_filter_box(struct NXImage *dest, const struct NXImage *src,
                 for (int y = 0; y < src->height; ++y) {                 \
                         const T *src_row = src->data.F + y*src->row_stride; \
                         float *dest_row = dest->data.f32 + y*dest->row_stride; \
+                        if (src->width < 2) {                           \
+                                if (src->width == 1)                    \
+                                        dest_row[0] = 0.0f;             \
+                                continue;                               \
+                        }                                               \
                         dest_row[0] = 2.0f * (src_row[1]-src_row[0])/S; \
                         for (int x = 1; x < dest->width-1; ++x) {       \
                                 dest_row[x] = (src_row[x+1]-src_row[x-1])/S; \
@@ -1243,6 +1248,8 @@ void nx_image_deriv_x(struct NXImage *dest, const struct NXImage *src)
                 nx_image_resize(dest, src->width, src->height, NX_IMAGE_STRIDE_DEFAULT, \
                                 src->type, NX_IMAGE_FLOAT32);           \
                 nx_image_set_zero(dest);                                \
+                if (src->height < 2)                                    \
+                        return;                                         \
                                                                         \
                 for (int x = 0; x < dest->width; ++x) {                 \
                         dest->data.f32[x] = 2.0f * (src->data.F[x + src->row_stride] \
@@ -1257,8 +1264,8 @@ void nx_image_deriv_x(struct NXImage *dest, const struct NXImage *src)
                         }                                               \
                 }                                                       \
                 for (int x = 0; x < dest->width; ++x) {                 \
-                        dest->data.f32[x + (src->height-1)*dest->row_stride] = 2.0f * (src->data.F[x + (src->height-1)*dest->row_stride] \
-                                                                                       - src->data.F[x + (src->height-2)*dest->row_stride])/S; \
+                        dest->data.f32[x + (src->height-1)*dest->row_stride] = 2.0f * (src->data.F[x + (src->height-1)*src->row_stride] \
+                                                                                       - src->data.F[x + (src->height-2)*src->row_stride])/S; \
                 }                                                       \
         }
 
-- 
2.43.0


From 70412e2896a779b50b5bd498d23120834209d6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:05 +0000
Subject: [PATCH 30/97] fix: clamp the interpolation neighbourhood when scaling
 images

---
 src/nx_image.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index aa37eca..4338576 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -561,20 +561,24 @@ void nx_image_scale_uc(struct NXImage *dest, const struct NXImage *src, float sc
                 int ypi = (int)yp;
                 float dy = yp - ypi;
 
-                const uchar *sample_row = src->data.uc + ypi * src->row_stride;
+                const int y0 = nx_min_i(ypi, src->height - 1);
+                const int y1 = nx_min_i(ypi + 1, src->height - 1);
+                const uchar *sample_row0 = src->data.uc + y0 * src->row_stride;
+                const uchar *sample_row1 = src->data.uc + y1 * src->row_stride;
 
                 for (int x = 0; x < dest->width; ++x) {
                         float xp = x * inv_scale;
                         int xpi = (int)xp;
                         float dx = xp - xpi;
 
-                        const uchar *sample = sample_row + xpi;
+                        const int x0 = nx_min_i(xpi, src->width - 1);
+                        const int x1 = nx_min_i(xpi + 1, src->width - 1);
 
-                        float Ix0 = sample[0];
-                        float Ix1 = sample[1];
+                        float Ix0 = sample_row0[x0];
+                        float Ix1 = sample_row0[x1];
 
-                        float Iy0 = sample[src->row_stride];
-                        float Iy1 = sample[src->row_stride + 1];
+                        float Iy0 = sample_row1[x0];
+                        float Iy1 = sample_row1[x1];
 
                         short interp = (Ix0*(1.0f - dx) + Ix1*dx) * (1.0f - dy)
                                 + (Iy0*(1.0f - dx) + Iy1*dx) * dy;
@@ -647,20 +651,24 @@ void nx_image_scale_f32(struct NXImage *dest, const struct NXImage *src, float s
                 int ypi = (int)yp;
                 float dy = yp - ypi;
 
-                const float *sample_row = src->data.f32 + ypi * src->row_stride;
+                const int y0 = nx_min_i(ypi, src->height - 1);
+                const int y1 = nx_min_i(ypi + 1, src->height - 1);
+                const float *sample_row0 = src->data.f32 + y0 * src->row_stride;
+                const float *sample_row1 = src->data.f32 + y1 * src->row_stride;
 
                 for (int x = 0; x < dest->width; ++x) {
                         float xp = x * inv_scale;
                         int xpi = (int)xp;
                         float dx = xp - xpi;
 
-                        const float *sample = sample_row + xpi;
+                        const int x0 = nx_min_i(xpi, src->width - 1);
+                        const int x1 = nx_min_i(xpi + 1, src->width - 1);
 
-                        float Ix0 = sample[0];
-                        float Ix1 = sample[1];
+                        float Ix0 = sample_row0[x0];
+                        float Ix1 = sample_row0[x1];
 
-                        float Iy0 = sample[src->row_stride];
-                        float Iy1 = sample[src->row_stride + 1];
+                        float Iy0 = sample_row1[x0];
+                        float Iy1 = sample_row1[x1];
 
                         float interp = (Ix0*(1.0f - dx) + Ix1*dx) * (1.0f - dy)
                                 + (Iy0*(1.0f - dx) + Iy1*dx) * dy;
-- 
2.43.0


From 013ac86a9b6e5e20b200532f54c7e19adbacfed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:05 +0000
Subject: [PATCH 31/97] fix: do not read outside small images in anti-aliased
 downsampling

---
 src/nx_image.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/nx_image.c b/src/nx_image.c
index 4338576..d31db07 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -848,6 +848,13 @@ void nx_image_upsample(struct NXImage *dest, const struct NXImage *src)
                 for (int y = 0; y < dest->height; ++y) {                \
                         const T *src_row = src->data.F + y * src->row_stride; \
                         T *dest_row = dest->data.F + y * dest->row_stride; \
+                        if (dest->width < 2) {                          \
+                                if (dest->width == 1)                   \
+                                        dest_row[0] = (2*src_row[src->width == 2 ? 0 : 2] \
+                                                       + 12*src_row[1]  \
+                                                       + 11*src_row[0]) * norm_f; \
+                                continue;                               \
+                        }                                               \
                         dest_row[0] = (2*src_row[2] + 12*src_row[1]     \
                                        + 11 * src_row[0]) * norm_f;     \
                         for (int x = 1; x < dest->width-1; ++x) {       \
@@ -904,6 +911,13 @@ void nx_image_downsample_aa_x(struct NXImage *dest, const struct NXImage *src)
                 for (int x = 0; x < dest->width; ++x) {                 \
                         const T *src_col = src->data.F + x;        \
                         T *dest_col = dest->data.F + x;            \
+                        if (dest->height < 2) {                         \
+                                if (dest->height == 1)                  \
+                                        dest_col[0] = (2*src_col[src->height == 2 ? 0 : 2*ss] \
+                                                       + 12*src_col[ss] \
+                                                       + 11*src_col[0]) * norm_f; \
+                                continue;                               \
+                        }                                               \
                         dest_col[0] = (2*src_col[2*ss] + 12 * src_col[ss] \
                                        + 11 * src_col[0]) * norm_f;     \
                         for (int y = 1; y < dest->height-1; ++y) {      \
-- 
2.43.0


From 7b86cfe08069d9932b999246fa92629f140ee7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:05 +0000
Subject: [PATCH 32/97] fix: clamp color map values to the range of the color
 map

---
 src/nx_colorspace.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nx_colorspace.c b/src/nx_colorspace.c
index cf94c13..8ccda89 100644
--- a/src/nx_colorspace.c
+++ b/src/nx_colorspace.c
@@ -121,6 +121,10 @@ void nx_color_map_apply(uchar* red, uchar* green, uchar* blue,
                         float value, enum NXColorMap map)
 {
         float rgb[3];
+        if (!(value > 0.0f))
+                value = 0.0f;
+        else if (value > 1.0f)
+                value = 1.0f;
         switch (map) {
         case NX_COLOR_MAP_VIRIDIS:
                 interpolate_color_map_data(&rgb[0], value,
-- 
2.43.0


From 8059ec7f8525ee5cc620596e200740b38d5f800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:30 +0000
Subject: [PATCH 33/97] fix: sample warped images at floored positions, not
 truncated towards zero

---
 src/nx_image_warp.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nx_image_warp.c b/src/nx_image_warp.c
index f33cfde..525db1d 100644
--- a/src/nx_image_warp.c
+++ b/src/nx_image_warp.c
@@ -62,8 +62,8 @@ void nx_image_warp_affine_bilinear(int dest_w, int dest_h, uchar *dest, int dest
                                          /* x, y, xp, yp); */
                         /* } */
 
-                        int xpi = xp;
-                        int ypi = yp;
+                        int xpi = floorf(xp);
+                        int ypi = floorf(yp);
 
                         float u = xp-xpi;
                         float v = yp-ypi;
@@ -161,8 +161,8 @@ static void nx_image_rotate45_uc(struct NXImage *dest, struct NXImage *src, NXBo
                 float yp = y*SQRT2_INV + TY;
                 for (int x = 0; x < dest->width;
                      ++x, xp += SQRT2_INV, yp -= CW*SQRT2_INV) {
-                        int xpi = xp;
-                        int ypi = yp;
+                        int xpi = floorf(xp);
+                        int ypi = floorf(yp);
 
                         float u = xp-xpi;
                         float v = yp-ypi;
@@ -212,8 +212,8 @@ static void nx_image_rotate45_f32(struct NXImage *dest, struct NXImage *src, NXB
                 float yp = y*SQRT2_INV + TY;
                 for (int x = 0; x < dest->width;
                      ++x, xp += SQRT2_INV, yp -= CW*SQRT2_INV) {
-                        int xpi = xp;
-                        int ypi = yp;
+                        int xpi = floorf(xp);
+                        int ypi = floorf(yp);
 
                         float u = xp-xpi;
                         float v = yp-ypi;
-- 
2.43.0


From 4a6e4579b7321a3fd2cf9c760774f8801a03e03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:30 +0000
Subject: [PATCH 34/97] fix: mirrored background of warped images stays inside
 the source image

---
 src/nx_image_warp.c | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/nx_image_warp.c b/src/nx_image_warp.c
index 525db1d..376e98e 100644
--- a/src/nx_image_warp.c
+++ b/src/nx_image_warp.c
@@ -32,6 +32,18 @@
 #include "virg/nexus/nx_log.h"
 #include "virg/nexus/nx_uniform_sampler.h"
 
+/* Reflects an index around the first and last of n elements */
+static inline int mirror_index(int i, int n)
+{
+        if (n < 2)
+                return 0;
+        const int period = 2*n - 2;
+        i %= period;
+        if (i < 0)
+                i += period;
+        return i < n ? i : period - i;
+}
+
 void nx_image_warp_affine_bilinear(int dest_w, int dest_h, uchar *dest, int dest_stride,
                                    int src_w, int src_h, const uchar *src, int src_stride,
                                    const float *t_dest2src, enum NXImageWarpBackgroundMode bg_mode)
@@ -42,8 +54,6 @@ void nx_image_warp_affine_bilinear(int dest_w, int dest_h, uchar *dest, int dest
 
         const int LAST_X = src_w - 1;
         const int LAST_Y = src_h - 1;
-        const int W2 = src_w * 2 - 2;
-        const int H2 = src_h * 2 - 2;
 
         uchar bg_fixed = 0;
         if (bg_mode == NX_IMAGE_WARP_WHITE)
@@ -108,21 +118,10 @@ void nx_image_warp_affine_bilinear(int dest_w, int dest_h, uchar *dest, int dest
                                 }
                                 break;
                         case NX_IMAGE_WARP_MIRROR:
-                                if (idx[0] < 0) {
-                                        if (idx[0] < 0) idx[0] =  -idx[0] - W2 * (-idx[0] / W2);
-                                        if (idx[1] < 0) idx[1] =  -idx[1] - W2 * (-idx[1] / W2);
-                                } else if (idx[0] >= LAST_X) {
-                                        if (idx[0] >= src_w) idx[0] = W2 - idx[0] - W2 * (idx[0] / W2);
-                                        if (idx[1] >= src_w) idx[1] = W2 - idx[1] - W2 * (idx[1] / W2);
-                                }
-
-                                if (idy[0] < 0) {
-                                        if (idy[0] < 0) idy[0] =  -idy[0] - H2 * (-idy[0] / H2);
-                                        if (idy[1] < 0) idy[1] =  -idy[1] - H2 * (-idy[1] / H2);
-                                } else if (idy[0] >= LAST_Y) {
-                                        if (idy[0] >= src_h) idy[0] = H2 - idy[0] - H2 * (idy[0] / H2);
-                                        if (idy[1] >= src_h) idy[1] = H2 - idy[1] - H2 * (idy[1] / H2);
-                                }
+                                idx[0] = mirror_index(idx[0], src_w);
+                                idx[1] = mirror_index(idx[1], src_w);
+                                idy[0] = mirror_index(idy[0], src_h);
+                                idy[1] = mirror_index(idy[1], src_h);
                                 break;
                         }
 
-- 
2.43.0


From 99c44d3e7eedb0e85d352a9a8af45e4fed6edae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:30 +0000
Subject: [PATCH 35/97] fix: keep fractional values when rotating float images

---
 src/nx_image_warp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_image_warp.c b/src/nx_image_warp.c
index 376e98e..3ae805d 100644
--- a/src/nx_image_warp.c
+++ b/src/nx_image_warp.c
@@ -229,7 +229,7 @@ static void nx_image_rotate45_f32(struct NXImage *dest, struct NXImage *src, NXB
                         }
                         const float *p0 = src->data.f32 + idy[0]*src->row_stride;
                         const float *p1 = src->data.f32 + idy[1]*src->row_stride;
-                        int I = vp*(up*p0[idx[0]] + u*p0[idx[1]])
+                        float I = vp*(up*p0[idx[0]] + u*p0[idx[1]])
                                 + v*(up*p1[idx[0]] + u*p1[idx[1]]);
 
                         drow[x] = I;
-- 
2.43.0


From 5b276650ff52324033e15af156a03b9a85f94303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:30 +0000
Subject: [PATCH 36/97] fix: mirror filter borders that are longer than the
 data

---
 src/nx_filter.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/nx_filter.c b/src/nx_filter.c
index 3ba3332..c9a3c92 100644
--- a/src/nx_filter.c
+++ b/src/nx_filter.c
@@ -130,6 +130,18 @@ void nx_convolve_box(int n, float *data, int n_r)
                 data[i] /= (2*n_r+1);
 }
 
+/* Reflects an index around the first and last of n elements */
+static inline int mirror_index(int i, int n)
+{
+        if (n < 2)
+                return 0;
+        const int period = 2*n - 2;
+        i %= period;
+        if (i < 0)
+                i += period;
+        return i < n ? i : period - i;
+}
+
 void fill_buffer_border(int n, float *buffer, int n_border, enum NXBorderMode mode)
 {
         float buffer_b;
@@ -148,9 +160,9 @@ void fill_buffer_border(int n, float *buffer, int n_border, enum NXBorderMode mo
                 break;
         case NX_BORDER_MIRROR:
                 for (int i = 0; i < n_border; ++i)
-                        buffer[i] = buffer[2*n_border-i];
+                        buffer[i] = buffer[n_border + mirror_index(i-n_border, n)];
                 for (int i = 0; i < n_border; ++i)
-                        buffer[n_border+n+i] = buffer[n_border+n-i-2];
+                        buffer[n_border+n+i] = buffer[n_border + mirror_index(n+i, n)];
                 break;
         default:
                 NX_FATAL(NX_LOG_TAG, "Unhandled switch case for border mode.");
-- 
2.43.0


From ddac381b2ea3116aa8fc4318607364a410f52d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:30 +0000
Subject: [PATCH 37/97] fix: skip affine warp blur passes without a positive
 sigma

---
 src/nx_affine_warp_processor.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/nx_affine_warp_processor.c b/src/nx_affine_warp_processor.c
index a58eb29..2a134ae 100644
--- a/src/nx_affine_warp_processor.c
+++ b/src/nx_affine_warp_processor.c
@@ -659,6 +659,15 @@ static void warp_processor_blur(struct NXImage *image,
 {
         const int N_THREADS = omp_get_max_threads();
         const float KERNEL_TRUNCATION_FACTOR = 3.0f;
+        const NXBool blur_x = sigma_x > 0.0f;
+        const NXBool blur_y = sigma_y > 0.0f;
+        if (!blur_x)
+                sigma_x = 0.0f;
+        if (!blur_y)
+                sigma_y = 0.0f;
+        if (!blur_x && !blur_y)
+                return;
+
         float *buffers[N_THREADS];
         int nkx;
         int nky;
@@ -674,11 +683,12 @@ static void warp_processor_blur(struct NXImage *image,
 
         // Smooth in x-direction
         int nk = nkx / 2 + 1;
-        nx_kernel_sym_gaussian(nk, kernel, sigma_x);
+        if (blur_x)
+                nx_kernel_sym_gaussian(nk, kernel, sigma_x);
 #ifdef _OPENMP
 #pragma omp parallel for schedule(dynamic, 4)
 #endif
-        for (int y = 0; y < image->height; ++y) {
+        for (int y = 0; y < (blur_x ? image->height : 0); ++y) {
                 float *buffer = buffers[omp_get_thread_num()];
                 uchar *image_row = image->data.uc + y * image->row_stride;
                 nx_filter_copy_to_buffer1_uc(image->width, buffer, image_row, nkx / 2, NX_BORDER_MIRROR);
@@ -689,11 +699,12 @@ static void warp_processor_blur(struct NXImage *image,
 
         // Smooth in y-direction
         nk = nky / 2 + 1;
-        nx_kernel_sym_gaussian(nk, kernel, sigma_y);
+        if (blur_y)
+                nx_kernel_sym_gaussian(nk, kernel, sigma_y);
 #ifdef _OPENMP
 #pragma omp parallel for schedule(dynamic, 4)
 #endif
-        for (int x = 0; x < image->width; ++x) {
+        for (int x = 0; x < (blur_y ? image->width : 0); ++x) {
                 float *buffer = buffers[omp_get_thread_num()];
                 uchar *image_col = image->data.uc + x;
                 nx_filter_copy_to_buffer_uc(image->height, buffer, image_col, image->row_stride, nky / 2, NX_BORDER_MIRROR);
-- 
2.43.0


From aa4ceb415af6fed95dbe74f399435af436028e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:30 +0000
Subject: [PATCH 38/97] fix: keep the row stride of the base image when
 building pyramids

---
 src/nx_image_pyr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nx_image_pyr.c b/src/nx_image_pyr.c
index d3762bf..f516dc4 100644
--- a/src/nx_image_pyr.c
+++ b/src/nx_image_pyr.c
@@ -88,7 +88,10 @@ void nx_image_pyr_create_level(struct NXImagePyr *pyr, int level_id, int width,
 
         struct NXImagePyrLevel *level = pyr->levels + level_id;
 
-        nx_image_resize(level->img, width, height, 0, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR);
+        if (level->img->width != width || level->img->height != height
+            || level->img->type != NX_IMAGE_GRAYSCALE
+            || level->img->dtype != NX_IMAGE_UCHAR)
+                nx_image_resize(level->img, width, height, 0, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR);
 
         level->scale = scale;
         level->sigma = sigma;
-- 
2.43.0


From e7e4188cd4d5e2552cc609ac5b8d2e8384691f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:36 +0000
Subject: [PATCH 39/97] fix: read PNM headers with comments and validate their
 attributes

---
 src/nx_image_io_pnm.c | 120 ++++++++++++++++++++----------------------
 1 file changed, 57 insertions(+), 63 deletions(-)

diff --git a/src/nx_image_io_pnm.c b/src/nx_image_io_pnm.c
index b2b66ad..ad82aba 100644
--- a/src/nx_image_io_pnm.c
+++ b/src/nx_image_io_pnm.c
@@ -25,6 +25,8 @@
  */
 #include "virg/nexus/nx_image_io_pnm.h"
 
+#include <ctype.h>
+#include <limits.h>
 #include <stdlib.h>
 
 #include "virg/nexus/nx_log.h"
@@ -158,53 +160,76 @@ static NXResult read_pnm_data(struct NXImage *img, enum NXImageType img_type,
         return NX_OK;
 }
 
-void nx_image_xload_pnm(struct NXImage *img, const char *filename,
-                        enum NXImageLoadMode mode)
+static int read_pnm_header_value(FILE *pnm)
 {
-        NX_ASSERT_PTR(img);
-        NX_ASSERT_PTR(filename);
-        NX_ASSERT_CUSTOM("Only UCHAR images can be loaded directly from PNM files", img->dtype==NX_IMAGE_UCHAR);
+        int c = fgetc(pnm);
+        while (c == '#' || isspace(c)) {
+                if (c == '#') {
+                        while (c != '\n' && c != EOF)
+                                c = fgetc(pnm);
+                } else {
+                        c = fgetc(pnm);
+                }
+        }
 
-        FILE *pnm = nx_xfopen(filename, "rb");
+        if (!isdigit(c))
+                return -1;
+
+        int value = 0;
+        while (isdigit(c)) {
+                if (value > (INT_MAX - 9) / 10)
+                        return -1;
+                value = 10 * value + (c - '0');
+                c = fgetc(pnm);
+        }
+        ungetc(c, pnm);
+
+        return value;
+}
 
+static NXResult read_pnm_header(FILE *pnm, const char *filename,
+                                enum NXImageType *pnm_type,
+                                int *pnm_width, int *pnm_height)
+{
         char ch1, ch2;
         if (fscanf(pnm, "%c%c", &ch1, &ch2) != 2) {
-                NX_IO_FATAL(NX_LOG_TAG, "Could not read image header from %s", filename);
+                NX_IO_ERROR(NX_LOG_TAG, "Could not read image header from %s", filename);
+                return NX_FAIL;
         }
 
         if(ch1 != 'P' || (ch2 != '5' && ch2 != '6')) {
-                NX_FATAL(NX_LOG_TAG, "Image %s is not a PNM file", filename);
+                NX_ERROR(NX_LOG_TAG, "Image %s is not a PNM file", filename);
+                return NX_FAIL;
         }
 
-        enum NXImageType pnm_type;
-        if(ch2 == '5') {
-                pnm_type = NX_IMAGE_GRAYSCALE;
-        } else if(ch2 == '6') {
-                pnm_type = NX_IMAGE_RGBA;
+        *pnm_type = ch2 == '5' ? NX_IMAGE_GRAYSCALE : NX_IMAGE_RGBA;
+        *pnm_width = read_pnm_header_value(pnm);
+        *pnm_height = read_pnm_header_value(pnm);
+        int pnm_levels = read_pnm_header_value(pnm);
+        // A single whitespace character separates the header from the pixels
+        if (*pnm_width <= 0 || *pnm_height <= 0 || pnm_levels <= 0 || pnm_levels > 255
+            || !isspace(fgetc(pnm))) {
+                NX_ERROR(NX_LOG_TAG, "Could not read image attributes from %s", filename);
+                return NX_FAIL;
         }
 
-        int c = fgetc(pnm);
-        while (c == ' ' || c == '\n' || c == '\t') {
-                c = fgetc(pnm);
-        }
+        return NX_OK;
+}
 
-        while (c == '#') {
-                while (c != '\n') {
-                        c = fgetc(pnm);
-                        if (c == EOF)
-                                NX_IO_FATAL(NX_LOG_TAG, "%s does not contain image data", filename);
-                }
-                c = fgetc(pnm);
-        }
-        ungetc(c, pnm);
+void nx_image_xload_pnm(struct NXImage *img, const char *filename,
+                        enum NXImageLoadMode mode)
+{
+        NX_ASSERT_PTR(img);
+        NX_ASSERT_PTR(filename);
+        NX_ASSERT_CUSTOM("Only UCHAR images can be loaded directly from PNM files", img->dtype==NX_IMAGE_UCHAR);
+
+        FILE *pnm = nx_xfopen(filename, "rb");
 
+        enum NXImageType pnm_type;
         int pnm_width;
         int pnm_height;
-        int pnm_levels;
-        if (fscanf(pnm, "%d %d %d", &pnm_width, &pnm_height, &pnm_levels) != 3) {
-                NX_IO_FATAL(NX_LOG_TAG, "Could not read image attributes from %s", filename);
-        }
-        c = fgetc(pnm);
+        if (read_pnm_header(pnm, filename, &pnm_type, &pnm_width, &pnm_height) != NX_OK)
+                NX_FATAL(NX_LOG_TAG, "Could not read PNM header from %s", filename);
 
         enum NXImageType img_type;
         switch (mode) {
@@ -238,45 +263,14 @@ NXResult nx_image_load_pnm(struct NXImage *img, const char *filename,
                 return NX_FAIL;
         }
 
-        char ch1, ch2;
-        if (fscanf(pnm, "%c%c", &ch1, &ch2) != 2) {
-                NX_IO_ERROR(NX_LOG_TAG, "Could not read image header from %s", filename);
-                fclose(pnm);
-                return NX_FAIL;
-        }
-
-        if(ch1 != 'P' || (ch2 != '5' && ch2 != '6')) {
-                NX_ERROR(NX_LOG_TAG, "Image %s is not a PNM file", filename);
-                fclose(pnm);
-                return NX_FAIL;
-        }
-
         enum NXImageType pnm_type;
-        if(ch2 == '5') {
-                pnm_type = NX_IMAGE_GRAYSCALE;
-        } else if(ch2 == '6') {
-                pnm_type = NX_IMAGE_RGBA;
-        }
-
         int pnm_width;
         int pnm_height;
-        int pnm_levels;
-
-        if (fscanf(pnm, "%d %d %d", &pnm_width, &pnm_height, &pnm_levels) != 3) {
-                NX_IO_ERROR(NX_LOG_TAG, "Could not read image attributes from %s", filename);
-                fclose(pnm);
-                return NX_FAIL;
-        }
-
-        // Skip a new line
-        char buffer[256];
-        if (fgets(buffer, sizeof(buffer), pnm) == NULL) {
-                NX_IO_ERROR(NX_LOG_TAG, "Error reading from %s", filename);
+        if (read_pnm_header(pnm, filename, &pnm_type, &pnm_width, &pnm_height) != NX_OK) {
                 fclose(pnm);
                 return NX_FAIL;
         }
 
-
         enum NXImageType img_type;
         switch (mode) {
         case NX_IMAGE_LOAD_GRAYSCALE:
-- 
2.43.0


From 68c0fae3a70e153b9fe5cf7e1b4e4aa2d690bf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:37 +0000
Subject: [PATCH 40/97] fix: report errors of the final flush when closing
 files

---
 src/nx_io.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nx_io.c b/src/nx_io.c
index 45c6161..864b5fe 100644
--- a/src/nx_io.c
+++ b/src/nx_io.c
@@ -50,7 +50,8 @@ void nx_xfclose(FILE *stream, const char *stream_label)
 
         int e = ferror(stream);
 
-        fclose(stream);
+        if (fclose(stream) != 0)
+                e = 1;
 
         if (e) {
                  NX_IO_FATAL(NX_LOG_TAG, "Error detected before closing stream %s",
@@ -78,7 +79,8 @@ NXResult nx_fclose(FILE *stream, const char *stream_label)
 
         int e = ferror(stream);
 
-        fclose(stream);
+        if (fclose(stream) != 0)
+                e = 1;
 
         if (e) {
                 NX_IO_ERROR(NX_LOG_TAG, "Error detected before closing stream %s",
-- 
2.43.0


From b80c7e224e87eef19c7381ccca7ac8fecfe6e30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:37 +0000
Subject: [PATCH 41/97] fix: load PNG files with the channels of the requested
 image type

---
 src/nx_image_io_png.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nx_image_io_png.c b/src/nx_image_io_png.c
index 3b25082..da1901b 100644
--- a/src/nx_image_io_png.c
+++ b/src/nx_image_io_png.c
@@ -169,12 +169,13 @@ static NXResult load_as_png(struct NXImage *img, FILE *fin,
                 if (color_type == PNG_COLOR_TYPE_GRAY ||
                     color_type == PNG_COLOR_TYPE_GA) {
                         png_set_gray_to_rgb(png_ptr);
-                        png_set_add_alpha(png_ptr, 255, PNG_FILLER_AFTER);
                 }
+                png_set_add_alpha(png_ptr, 255, PNG_FILLER_AFTER);
         } else {
                 if (color_type == PNG_COLOR_TYPE_GRAY ||
                     color_type == PNG_COLOR_TYPE_GA) {
                         output_type = NX_IMAGE_GRAYSCALE;
+                        png_set_strip_alpha(png_ptr);
                 }
 
                 if(color_type == PNG_COLOR_TYPE_RGB ||
-- 
2.43.0


From 870fa337c459c33cb7a1b00f5204de820ed35323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:37 +0000
Subject: [PATCH 42/97] fix: release the row pointers when PNG reading or
 writing fails

---
 src/nx_image_io_png.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nx_image_io_png.c b/src/nx_image_io_png.c
index da1901b..5397049 100644
--- a/src/nx_image_io_png.c
+++ b/src/nx_image_io_png.c
@@ -64,8 +64,10 @@ static NXResult save_as_png(const struct NXImage *img, FILE *fout)
                 return NX_FAIL;
         }
 
+        png_bytepp volatile row_pointers = NULL;
         if (setjmp(png_jmpbuf(png_ptr))) {
                 NX_ERROR(NX_LOG_TAG, "Error creating jump for PNG pointer");
+                nx_free(row_pointers);
                 png_destroy_write_struct(&png_ptr, &info_ptr);
                 return NX_FAIL;
         }
@@ -90,7 +92,7 @@ static NXResult save_as_png(const struct NXImage *img, FILE *fout)
 
         NX_ASSERT((unsigned int)img->height <= PNG_UINT_32_MAX/sizeof(png_bytep));
 
-        png_bytepp row_pointers = NX_NEW(img->height, png_bytep);
+        row_pointers = NX_NEW(img->height, png_bytep);
         if (!row_pointers) {
                 NX_ERROR(NX_LOG_TAG, "Error creating PNG row pointers");
                 png_destroy_write_struct(&png_ptr, &info_ptr);
@@ -132,8 +134,10 @@ static NXResult load_as_png(struct NXImage *img, FILE *fin,
                 return NX_FAIL;
         }
 
+        png_bytepp volatile row_pointers = NULL;
         if (setjmp(png_jmpbuf(png_ptr))) {
                 NX_ERROR(NX_LOG_TAG, "Could not set jump point for reading PNG file");
+                nx_free(row_pointers);
                 png_destroy_read_struct(&png_ptr, &info_ptr, png_infopp_NULL);
                 return NX_FAIL;
         }
@@ -192,7 +196,7 @@ static NXResult load_as_png(struct NXImage *img, FILE *fin,
                                 NX_IMAGE_UCHAR);
         }
 
-        png_bytepp row_pointers = NX_NEW(img->height, png_bytep);
+        row_pointers = NX_NEW(img->height, png_bytep);
         for (int row = 0; row < img->height; row++) {
                 row_pointers[row] = img->data.uc + row * img->row_stride;
         }
-- 
2.43.0


From cc46898b19afa51dd0652bba162eca377ff5cdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:37 +0000
Subject: [PATCH 43/97] fix: do not overflow the row buffer for JPEG files with
 four components

---
 src/nx_image_io_jpeg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nx_image_io_jpeg.c b/src/nx_image_io_jpeg.c
index becd4ad..650bf1b 100644
--- a/src/nx_image_io_jpeg.c
+++ b/src/nx_image_io_jpeg.c
@@ -178,6 +178,8 @@ static NXResult load_as_jpeg(struct NXImage *img, FILE *jpeg_stream,
                 cinfo.output_components = 3;
                 cinfo.out_color_components = 3;
                 cinfo.out_color_space = JCS_RGB;
+        } else if (cinfo.out_color_space != JCS_GRAYSCALE) {
+                cinfo.out_color_space = JCS_RGB;
         }
 
         jpeg_start_decompress(&cinfo);
-- 
2.43.0


From 22a324db01e0abd0113824b4b597ce1d52b63a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:37 +0000
Subject: [PATCH 44/97] fix: release the row buffer when JPEG reading or
 writing fails

---
 src/nx_image_io_jpeg.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/nx_image_io_jpeg.c b/src/nx_image_io_jpeg.c
index 650bf1b..41a88fa 100644
--- a/src/nx_image_io_jpeg.c
+++ b/src/nx_image_io_jpeg.c
@@ -64,7 +64,9 @@ static NXResult save_as_jpeg(const struct NXImage *img, FILE *jpeg_stream)
         cinfo.err = jpeg_std_error(&jerr.pub);
         jerr.pub.error_exit = my_error_exit;
 
+        uchar * volatile buffer = NULL;
         if (setjmp(jerr.setjmp_buffer)) {
+                nx_free(buffer);
                 jpeg_destroy_compress(&cinfo);
                 return NX_FAIL;
         }
@@ -89,7 +91,7 @@ static NXResult save_as_jpeg(const struct NXImage *img, FILE *jpeg_stream)
                 }
         } else if (img->type == NX_IMAGE_RGBA) {
                 int x;
-                uchar* buffer = NX_NEW_UC(3*img->width);
+                buffer = NX_NEW_UC(3*img->width);
                 JSAMPROW row_pointer = (JSAMPROW)(buffer);
                 while (cinfo.next_scanline < cinfo.image_height) {
                         const unsigned char* read_row = img->data.uc + cinfo.next_scanline * img->row_stride;
@@ -101,7 +103,9 @@ static NXResult save_as_jpeg(const struct NXImage *img, FILE *jpeg_stream)
                         jpeg_write_scanlines(&cinfo, &row_pointer, 1);
                 }
                 nx_free(buffer);
+                buffer = NULL;
         } else {
+                jpeg_destroy_compress(&cinfo);
                 return NX_FAIL;
         }
 
@@ -161,7 +165,9 @@ static NXResult load_as_jpeg(struct NXImage *img, FILE *jpeg_stream,
         cinfo.err = jpeg_std_error(&jerr.pub);
         jerr.pub.error_exit = my_error_exit;
 
+        uchar * volatile buffer = NULL;
         if (setjmp(jerr.setjmp_buffer)) {
+                nx_free(buffer);
                 jpeg_destroy_decompress(&cinfo);
                 return NX_FAIL;
         }
@@ -193,7 +199,7 @@ static NXResult load_as_jpeg(struct NXImage *img, FILE *jpeg_stream,
                 }
         } else {
                 int x;
-                uchar* buffer = NX_NEW_UC(3*img->width);
+                buffer = NX_NEW_UC(3*img->width);
                 JSAMPROW row_pointer = (JSAMPROW)(buffer);
                 while (cinfo.output_scanline < cinfo.output_height) {
                         uchar* write_row = img->data.uc + cinfo.output_scanline * img->row_stride;
@@ -206,6 +212,7 @@ static NXResult load_as_jpeg(struct NXImage *img, FILE *jpeg_stream,
                         }
                 }
                 nx_free(buffer);
+                buffer = NULL;
         }
 
         jpeg_finish_decompress(&cinfo);
-- 
2.43.0


From 5837b4f118a652f2f0806c2c0e866eb61fa5a217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:53 +0000
Subject: [PATCH 45/97] fix: restore the radius and tests of a saved BRIEF
 extractor

---
 src/nx_brief_extractor.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/nx_brief_extractor.c b/src/nx_brief_extractor.c
index ed3a74b..b0f1d04 100644
--- a/src/nx_brief_extractor.c
+++ b/src/nx_brief_extractor.c
@@ -373,14 +373,23 @@ NXResult nx_brief_extractor_read(struct NXBriefExtractor *be, FILE *stream)
         if (fread(&n_octets, sizeof(n_octets), 1, stream) != 1)
                 return NX_FAIL;
 
-        nx_brief_extractor_resize(be, radius, n_octets);
+        if (radius <= 0 || n_octets <= 0 || n_octets > INT_MAX / (4*8))
+                return NX_FAIL;
+
+        if (be->n_octets < n_octets) {
+                nx_free(be->offsets);
+                be->offsets = NX_NEW_I(n_octets*4*8);
+        }
+        be->n_octets = n_octets;
+        be->radius = radius;
 
         int n_offsets = be->n_octets*4*8;
         if (fread(be->offsets, sizeof(*be->offsets), n_offsets, stream) != (size_t)n_offsets)
                 return NX_FAIL;
         nx_brief_extractor_update_limits(be);
 
-        if (fread(&be->pyr_level_offset, sizeof(be->pyr_level_offset), 1, stream) != 1)
+        if (fread(&be->pyr_level_offset, sizeof(be->pyr_level_offset), 1, stream) != 1
+            || be->pyr_level_offset < 0)
                 return NX_FAIL;
 
         return NX_OK;
-- 
2.43.0


From 74195d54e7b88b40de501a6af0d56767b0a9c30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:53 +0000
Subject: [PATCH 46/97] fix: key the SIFT cache by the geometry and data type
 of the image

---
 src/nx_sift_detector.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index f6e186c..8de82c8 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -673,22 +673,27 @@ int nx_sift_detector_compute_with_cache(struct NXSIFTDetector *detector,
                 cache_dir = NX_DEFAULT_CACHE_DIRECTORY;
 
         int n_rows = image->height;
-        int n_msgs = n_rows + 1;
+        int n_msgs = n_rows + 2;
         uint8_t **msgs = NX_NEW(n_msgs, uint8_t *);
         size_t *lmsg = NX_NEW_Z(n_msgs);
         for (int i = 0; i < n_rows; ++i) {
                 if (image->dtype == NX_IMAGE_UCHAR) {
                         msgs[i] = (uint8_t *)(image->data.uc + i * image->row_stride);
                         lmsg[i] = image->width * image->n_channels * sizeof(uchar);
-                } else if (image->dtype == NX_IMAGE_UCHAR) {
+                } else {
                         msgs[i] = (uint8_t *)(image->data.f32 + i * image->row_stride);
                         lmsg[i] = image->width * image->n_channels * sizeof(float);
                 }
         }
+        int geometry[3] = { image->width, image->height, (int)image->dtype };
+        msgs[n_msgs - 2] = (uint8_t *)(&geometry[0]);
+        lmsg[n_msgs - 2] = sizeof(geometry);
         msgs[n_msgs - 1] = (uint8_t *)(&detector->param);
         lmsg[n_msgs - 1] = sizeof(detector->param);
         uint8_t hash[32];
         nx_sha256_multi(&hash[0], n_msgs, (const uint8_t *const *)msgs, lmsg);
+        nx_free(msgs);
+        nx_free(lmsg);
 
         int n_keys = 0;
         char *hash_str = nx_hash_to_str(32, &hash[0]);
-- 
2.43.0


From b2d511434d5db9fff35bbebf867e507be4296563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:53 +0000
Subject: [PATCH 47/97] fix: key the SIFT match cache by the number of
 keypoints

---
 src/nx_sift_detector.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 8de82c8..4d4c5dd 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -841,7 +841,7 @@ int nx_sift_match_brute_force_with_cache(int n,  const struct NXKeypoint *keys,
         if (!cache_dir)
                 cache_dir = NX_DEFAULT_CACHE_DIRECTORY;
 
-        int n_msgs = 5;
+        int n_msgs = 6;
         uint8_t **msgs = NX_NEW(n_msgs, uint8_t *);
         size_t *lmsg = NX_NEW_Z(n_msgs);
         msgs[0] = (uint8_t *)(keys);
@@ -857,8 +857,14 @@ int nx_sift_match_brute_force_with_cache(int n,  const struct NXKeypoint *keys,
         msgs[4] = (uint8_t *)(&dist_ratio_thr);
         lmsg[4] = sizeof(dist_ratio_thr);
 
+        int n_keys[2] = { n, np };
+        msgs[5] = (uint8_t *)(&n_keys[0]);
+        lmsg[5] = sizeof(n_keys);
+
         uint8_t hash[32];
         nx_sha256_multi(&hash[0], n_msgs, (const uint8_t *const *)msgs, lmsg);
+        nx_free(msgs);
+        nx_free(lmsg);
 
         int n_corr = 0;
         char *hash_str = nx_hash_to_str(32, &hash[0]);
-- 
2.43.0


From 32918c866f46cb9f7ea57e5e92bd61d11eb09be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:53 +0000
Subject: [PATCH 48/97] fix: reject SIFT files with invalid keypoint counts

---
 src/nx_sift_detector.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 4d4c5dd..0f70673 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -702,14 +702,16 @@ int nx_sift_detector_compute_with_cache(struct NXSIFTDetector *detector,
                 // read from cache file
                 FILE *fin = nx_xfopen(cachefilepath, "rb");
                 nx_xfread(&n_keys, sizeof(n_keys), 1, fin);
+                if (n_keys < 0)
+                        NX_FATAL(NX_LOG_TAG, "SIFT cache file %s is corrupted!", cachefilepath);
 
                 if (*max_n_keys < n_keys) {
                         *keys = (struct NXKeypoint *)nx_xrealloc(*keys, n_keys * sizeof(struct NXKeypoint));
-                        *desc = (uchar *)nx_xrealloc(*desc, n_keys * NX_SIFT_DESC_DIM * sizeof(uchar));
+                        *desc = (uchar *)nx_xrealloc(*desc, (size_t)n_keys * NX_SIFT_DESC_DIM * sizeof(uchar));
                         *max_n_keys = n_keys;
                 }
                 nx_xfread(*keys, sizeof(struct NXKeypoint), n_keys, fin);
-                nx_xfread(*desc, sizeof(uchar), n_keys * NX_SIFT_DESC_DIM, fin);
+                nx_xfread(*desc, sizeof(uchar), (size_t)n_keys * NX_SIFT_DESC_DIM, fin);
                 nx_fclose(fin, cachefilepath);
                 NX_LOG(NX_LOG_TAG, "Read %d SIFT keypoints and descriptors from cache file %s",
                        n_keys, cachefilepath);
@@ -873,6 +875,8 @@ int nx_sift_match_brute_force_with_cache(int n,  const struct NXKeypoint *keys,
                 // read from cache file
                 FILE *fin = nx_xfopen(cachefilepath, "rb");
                 nx_xfread(&n_corr, sizeof(n_corr), 1, fin);
+                if (n_corr < 0 || n_corr > n)
+                        NX_FATAL(NX_LOG_TAG, "SIFT match cache file %s is corrupted!", cachefilepath);
                 nx_xfread(corr, sizeof(struct NXPointMatch2D), n_corr, fin);
                 nx_fclose(fin, cachefilepath);
                 NX_LOG(NX_LOG_TAG, "Read %d SIFT matches from cache file %s",
@@ -943,12 +947,12 @@ int nx_sift_xload(const char *filename, int *max_n_keys,
 
         if (*max_n_keys < n) {
                 *keys = nx_xrealloc(*keys, n * sizeof(**keys));
-                *desc = nx_xrealloc(*desc, n * NX_SIFT_DESC_DIM * sizeof(**desc));
+                *desc = nx_xrealloc(*desc, (size_t)n * NX_SIFT_DESC_DIM * sizeof(**desc));
                 *max_n_keys = n;
         }
 
         nx_keypoint_xread(*keys, n, fin);
-        nx_xfread(*desc, sizeof(**desc), n * NX_SIFT_DESC_DIM, fin);
+        nx_xfread(*desc, sizeof(**desc), (size_t)n * NX_SIFT_DESC_DIM, fin);
 
         nx_xfclose(fin, filename);
 
-- 
2.43.0


From fa1b49a72f8b48cbfad42784398c3d8f328a003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:53 +0000
Subject: [PATCH 49/97] fix: report failures to store SIFT cache files

---
 src/nx_sift_detector.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 0f70673..b99ce28 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -712,7 +712,7 @@ int nx_sift_detector_compute_with_cache(struct NXSIFTDetector *detector,
                 }
                 nx_xfread(*keys, sizeof(struct NXKeypoint), n_keys, fin);
                 nx_xfread(*desc, sizeof(uchar), (size_t)n_keys * NX_SIFT_DESC_DIM, fin);
-                nx_fclose(fin, cachefilepath);
+                nx_xfclose(fin, cachefilepath);
                 NX_LOG(NX_LOG_TAG, "Read %d SIFT keypoints and descriptors from cache file %s",
                        n_keys, cachefilepath);
         } else {
@@ -725,7 +725,7 @@ int nx_sift_detector_compute_with_cache(struct NXSIFTDetector *detector,
                 nx_xfwrite(&n_keys, sizeof(n_keys), 1, fout);
                 nx_xfwrite(*keys, sizeof(struct NXKeypoint), n_keys, fout);
                 nx_xfwrite(*desc, sizeof(uchar), n_keys * NX_SIFT_DESC_DIM, fout);
-                nx_fclose(fout, cachefilepath);
+                nx_xfclose(fout, cachefilepath);
                 NX_LOG(NX_LOG_TAG, "Cached %d SIFT keypoints and descriptors to %s",
                        n_keys, cachefilepath);
         }
@@ -878,7 +878,7 @@ int nx_sift_match_brute_force_with_cache(int n,  const struct NXKeypoint *keys,
                 if (n_corr < 0 || n_corr > n)
                         NX_FATAL(NX_LOG_TAG, "SIFT match cache file %s is corrupted!", cachefilepath);
                 nx_xfread(corr, sizeof(struct NXPointMatch2D), n_corr, fin);
-                nx_fclose(fin, cachefilepath);
+                nx_xfclose(fin, cachefilepath);
                 NX_LOG(NX_LOG_TAG, "Read %d SIFT matches from cache file %s",
                        n_corr, cachefilepath);
         } else {
@@ -890,7 +890,7 @@ int nx_sift_match_brute_force_with_cache(int n,  const struct NXKeypoint *keys,
                 FILE *fout = nx_xfopen(cachefilepath, "wb");
                 nx_xfwrite(&n_corr, sizeof(n_corr), 1, fout);
                 nx_xfwrite(corr, sizeof(struct NXPointMatch2D), n_corr, fout);
-                nx_fclose(fout, cachefilepath);
+                nx_xfclose(fout, cachefilepath);
                 NX_LOG(NX_LOG_TAG, "Cached %d SIFT matches to %s",
                        n_corr, cachefilepath);
         }
-- 
2.43.0


From a97a4674eeb9b919f407902ac68045277edad1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:53 +0000
Subject: [PATCH 50/97] fix: return no SIFT matches when there is nothing to
 match to

---
 src/nx_sift_detector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index b99ce28..9104372 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -795,6 +795,9 @@ int nx_sift_match_brute_force(int n,  const struct NXKeypoint *keys,
 
                 return n_matches;
         } else {
+                if (np == 0)
+                        return 0;
+
                 for (int i = 0; i < n; ++i) {
                         int nn_id = -1;
                         int nn_dist_sq = INT_MAX;
-- 
2.43.0


From e9dee3ad84e7fe4ae6d0da04d232eefa6efabc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:53 +0000
Subject: [PATCH 51/97] fix: open KITTI sequences without ground truth poses

---
 src/nx_kitti_slam.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_kitti_slam.c b/src/nx_kitti_slam.c
index d4c840f..6b0667a 100644
--- a/src/nx_kitti_slam.c
+++ b/src/nx_kitti_slam.c
@@ -139,7 +139,7 @@ struct NXKittiSLAMSequence *nx_kitti_slam_sequence_new(struct NXKittiSLAM *datas
         char *pose_file = nx_fstr(NX_KITTI_SLAM_POSE_FILE_FORMAT,
                                   dataset->base_dir, seq_id);
         FILE *pose_in = nx_fopen(pose_file, "r");
-        seq->is_gt_available = (pose_file != NULL);
+        seq->is_gt_available = (pose_in != NULL);
         if (seq->is_gt_available) {
                 seq->poses = nx_read_poses_from_pose_file(pose_in, &seq->length);
                 nx_fclose(pose_in, "pose_in");
-- 
2.43.0


From 23da544a534984c76c571209d467883443812535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:53 +0000
Subject: [PATCH 52/97] fix: reject invalid frame ranges of Temple Color 128
 sequences

---
 src/nx_temple_color_128.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nx_temple_color_128.c b/src/nx_temple_color_128.c
index be1603c..5020e0b 100644
--- a/src/nx_temple_color_128.c
+++ b/src/nx_temple_color_128.c
@@ -25,6 +25,7 @@
  */
 #include "virg/nexus/nx_temple_color_128.h"
 
+#include <limits.h>
 #include <stdio.h>
 #include <string.h>
 
@@ -158,6 +159,10 @@ nx_temple_color_128_sequence_new(const char *base_dir,
         nx_temple_color_128_xread_frame_range(base_dir, seq_name,
                                               &seq->start_frame,
                                               &seq->end_frame);
+        if (seq->start_frame < 0 || seq->end_frame < seq->start_frame
+            || seq->end_frame == INT_MAX)
+                NX_FATAL(NX_LOG_TAG, "Invalid frame range %d to %d for Temple Color 128 sequence %s",
+                         seq->start_frame, seq->end_frame, seq_name);
         seq->length = seq->end_frame - seq->start_frame + 1;
 
         seq->attributes = nx_temple_color_128_xread_attributes(base_dir,
-- 
2.43.0


From 46880e9b2eb4939b6d2833ce51ccec93e084439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:53 +0000
Subject: [PATCH 53/97] fix: detect size overflow in nx_calloc

---
 src/nx_alloc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nx_alloc.c b/src/nx_alloc.c
index 19efc90..30dbf79 100644
--- a/src/nx_alloc.c
+++ b/src/nx_alloc.c
@@ -25,6 +25,7 @@
  */
 #include "virg/nexus/nx_alloc.h"
 
+#include <stdint.h>
 #include <string.h>
 #include <stdalign.h>
 
@@ -72,6 +73,11 @@ void *nx_malloc(size_t sz)
 
 void *nx_calloc(size_t n_memb, size_t sz)
 {
+        if (sz != 0 && n_memb > SIZE_MAX / sz) {
+                NX_ERROR(NX_LOG_TAG, "Error allocating %zd items of %zd bytes, out of memory!", n_memb, sz);
+                return NULL;
+        }
+
         const size_t length = n_memb * sz;
         void *ptr = nx_malloc(length);
         if (ptr) {
-- 
2.43.0


From a4c4364f758ab26625931c0e7fe12d525ae6bc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:35 +0000
Subject: [PATCH 54/97] fix: allocate Temple Color 128 ground truth rows as
 they are read

---
 src/nx_temple_color_128.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/nx_temple_color_128.c b/src/nx_temple_color_128.c
index 5020e0b..1d39108 100644
--- a/src/nx_temple_color_128.c
+++ b/src/nx_temple_color_128.c
@@ -103,15 +103,12 @@ nx_temple_color_128_xread_ground_truth(const char *base_dir,
                                        int length)
 {
         float **gt = NX_NEW(length, float*);
-        for (int i = 0; i < length; ++i) {
-                gt[i] = NX_NEW_S(4);
-        }
-
         char *gt_file = nx_fstr(NX_TEMPLE_COLOR_128_GT_FILE_FORMAT,
                                 base_dir, seq_name, seq_name);
         FILE *fin = nx_xfopen(gt_file, "r");
 
         for (int i = 0; i < length; ++i) {
+                gt[i] = NX_NEW_S(4);
                 if (4 != fscanf(fin, "%f,%f,%f,%f\n",
                                 gt[i], gt[i] + 1, gt[i] + 2, gt[i] + 3))
                         NX_FATAL(NX_LOG_TAG,
-- 
2.43.0


From 11086407f42438abbf8fe9d401269488ef2fcd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:58 +0000
Subject: [PATCH 55/97] fix: grow small SIFT keypoint stores

---
 src/nx_sift_detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 9104372..bcc2f81 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -151,7 +151,7 @@ struct NXSIFTKeyStore {
 int nx_sift_key_store_append(struct NXSIFTKeyStore *store)
 {
         if (store->n >= store->cap) {
-                int new_cap = (int)(store->cap * 1.6f);
+                int new_cap = nx_max_i(store->n + 1, (int)(store->cap * 1.6f));
                 store->keys = (struct NXKeypoint *)nx_xrealloc(store->keys,
                                                                new_cap*sizeof(struct NXKeypoint));
                 store->desc = (uchar *)nx_xrealloc(store->desc,
-- 
2.43.0


From eaa467d961b0ded1eb2541a52daedc28a2b17a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:58 +0000
Subject: [PATCH 56/97] fix: do not search SIFT peaks beyond the right image
 border

---
 src/nx_sift_detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index bcc2f81..88db53e 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -527,7 +527,7 @@ void nx_sift_process_dog(struct NXSIFTDetector *det,
                 const float *dogp_rowm  = dogp->data.f32 + (y-1) * dogp->row_stride;
                 const float *dogp_row   = dogp_rowm + dogp->row_stride;
                 const float *dogp_rowp  = dogp_row  + dogp->row_stride;
-                for (int x = B; x < dog->width + B; ++x) {
+                for (int x = B; x < dog->width - B; ++x) {
                         float dval = dog_row[x];
                         if (fabs(dval) > 0.8 * peak_thr
                             && ((dval > 0 && dval > dog_row[x-1]   && dval > dog_row[x+1]
-- 
2.43.0


From 416acd62f8ed0baa39785eecb4aa583d56b43282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:58 +0000
Subject: [PATCH 57/97] fix: do not index SIFT orientation bin -1

---
 src/nx_sift_detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 88db53e..b3bf74e 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -228,7 +228,7 @@ void nx_sift_compute_fdescriptor(struct NXSIFTDetector *det,
                                 float h  = N_ORI_BINS * (sample_ori / (2.0 * NX_PI));
                                 int pxi = px > 0.0f ? (int)px : (int)(px - 1.0f); // floor
                                 int pyi = py > 0.0f ? (int)py : (int)(py - 1.0f); // floor
-                                int hi  = h  > 0.0f ? (int)h  : (int)(h  - 1.0f); // floor
+                                int hi  = (int)h; // h >= 0
                                 int hi0 = (hi >= N_ORI_BINS) ? 0 : hi;
                                 int hi1 = ((hi0 + 1) >= N_ORI_BINS) ? 0 : hi0 + 1;
                                 float xeps = px - pxi;
-- 
2.43.0


From f265551a0b79fc855281839ce2042038436ad5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:58 +0000
Subject: [PATCH 58/97] fix: use the smoothed last bin as cyclic border of SIFT
 orientation histograms

---
 src/nx_sift_detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index b3bf74e..b74c842 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -347,7 +347,7 @@ float nx_sift_compute_ori_hist(float *hist, const struct NXImage *gx,
                 memcpy(&hist[1], &hist_buffer[0], NX_SIFT_N_ORI_BINS*sizeof(*hist));
         }
         // create cyclic border of length one
-        hist[0] = hist_buffer[NX_SIFT_N_ORI_BINS];
+        hist[0] = hist[NX_SIFT_N_ORI_BINS];
         hist[NX_SIFT_N_ORI_BINS+1] = hist[1];
 
         // Compute and return histogram peak
-- 
2.43.0


From af86d5f8a6535a2d7181fd94bbf725677d903138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:58 +0000
Subject: [PATCH 59/97] fix: report matrix write errors

---
 src/nx_mat.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nx_mat.c b/src/nx_mat.c
index 31ba763..97768d7 100644
--- a/src/nx_mat.c
+++ b/src/nx_mat.c
@@ -46,6 +46,9 @@ void nx_dmat_xwrite(FILE *stream, int m, int n, const double *A)
                                 fprintf(stream, " ");
                 }
         }
+
+        if (ferror(stream))
+                NX_IO_FATAL(NX_LOG_TAG, "Error writing %d x %d matrix to stream", m, n);
 }
 
 double *nx_dmat_xread(FILE *stream, int *m, int *n)
-- 
2.43.0


From e8ec03e6b20d13a916186729b841937caef78b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:55 +0000
Subject: [PATCH 60/97] fix: report read errors while loading CSV streams

---
 src/nx_data_frame.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nx_data_frame.c b/src/nx_data_frame.c
index 86071e9..dea6bb9 100644
--- a/src/nx_data_frame.c
+++ b/src/nx_data_frame.c
@@ -632,6 +632,12 @@ struct NXDataFrame *nx_data_frame_load_csv_stream(FILE *stream,
         }
         csv_text[i] = '\0';
 
+        if (ferror(stream)) {
+                NX_ERROR(NX_LOG_TAG, "Error reading CSV data from stream");
+                nx_free(csv_text);
+                return NULL;
+        }
+
         struct NXCSVLexer *clex = nx_csv_lexer_new(csv_text);
         struct NXCSVParser *cp = nx_csv_parser_new(clex);
         struct NXDataFrame *df = nx_csv_parser_parse(cp);
-- 
2.43.0


From 2bce04ac7daaf0420373edc8acda2558e56746d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:55 +0000
Subject: [PATCH 61/97] fix: report matrix read errors

---
 src/nx_mat.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nx_mat.c b/src/nx_mat.c
index 97768d7..d78ab9b 100644
--- a/src/nx_mat.c
+++ b/src/nx_mat.c
@@ -101,6 +101,9 @@ double *nx_dmat_xread(FILE *stream, int *m, int *n)
         }
         free(line);
 
+        if (ferror(stream))
+                NX_IO_FATAL(NX_LOG_TAG, "Error reading matrix from stream");
+
         if (*m == 0 || *n == 0) {
                 *m = 0;
                 *n = 0;
-- 
2.43.0


From bf44f39935e98aa463a7e0151d652eda968dfe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:43 +0000
Subject: [PATCH 62/97] fix: report read errors of KITTI pose files

---
 src/nx_kitti_slam.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_kitti_slam.c b/src/nx_kitti_slam.c
index 6b0667a..b6fde60 100644
--- a/src/nx_kitti_slam.c
+++ b/src/nx_kitti_slam.c
@@ -142,7 +142,7 @@ struct NXKittiSLAMSequence *nx_kitti_slam_sequence_new(struct NXKittiSLAM *datas
         seq->is_gt_available = (pose_in != NULL);
         if (seq->is_gt_available) {
                 seq->poses = nx_read_poses_from_pose_file(pose_in, &seq->length);
-                nx_fclose(pose_in, "pose_in");
+                nx_xfclose(pose_in, "pose_in");
         } else {
                 seq->poses = NULL;
         }
-- 
2.43.0


From de2e1dbd2813013107b522c169b73e472e115f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:43 +0000
Subject: [PATCH 63/97] fix: report read errors while loading JSON streams

---
 src/nx_json_tree.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nx_json_tree.c b/src/nx_json_tree.c
index a7caef7..3aa304d 100644
--- a/src/nx_json_tree.c
+++ b/src/nx_json_tree.c
@@ -73,6 +73,9 @@ struct NXJSONNode *nx_json_tree_from_stream(FILE *stream)
         }
         jtext[i] = '\0';
 
+        if (ferror(stream))
+                NX_IO_FATAL(NX_LOG_TAG, "Error reading JSON text from stream");
+
         struct NXJSONNode *json_tree = nx_json_tree_from_string(jtext);
         nx_free(jtext);
 
-- 
2.43.0


From 69aeb13c28bd82e613431228a3103b2d6e54cd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:36 +0000
Subject: [PATCH 64/97] fix: compare ints without overflow in
 nx_compare_int_incr

---
 include/virg/nexus/nx_math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/virg/nexus/nx_math.h b/include/virg/nexus/nx_math.h
index 0ff585c..cb74556 100644
--- a/include/virg/nexus/nx_math.h
+++ b/include/virg/nexus/nx_math.h
@@ -102,7 +102,7 @@ int nx_compare_int_incr(const void *i0p, const void *i1p)
         int i0 = *(int *)i0p;
         int i1 = *(int *)i1p;
 
-        return i0 - i1;
+        return (i0 > i1) - (i0 < i1);
 }
 
 __NX_END_DECL
-- 
2.43.0


From e0fe5dd4bf4e2b46811be096790ca5162cca8322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:36 +0000
Subject: [PATCH 65/97] fix: average ints in double when computing medians and
 quartiles

---
 src/nx_statistics.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/nx_statistics.c b/src/nx_statistics.c
index 282ade1..491aea8 100644
--- a/src/nx_statistics.c
+++ b/src/nx_statistics.c
@@ -135,17 +135,17 @@ void nx_istatistics_1d(struct NXStatistics1D *stats, int n, int *x)
                         stats->lower_quartile = x[half_half_n];
                         stats->upper_quartile = x[half_n + half_half_n + 1];
                 } else {
-                        stats->lower_quartile = (x[half_half_n - 1] + x[half_half_n]) / 2.0;
-                        stats->upper_quartile = (x[half_n + half_half_n] + x[half_n + half_half_n + 1]) / 2.0;
+                        stats->lower_quartile = ((double)x[half_half_n - 1] + x[half_half_n]) / 2.0;
+                        stats->upper_quartile = ((double)x[half_n + half_half_n] + x[half_n + half_half_n + 1]) / 2.0;
                 }
         } else {
-                stats->median = (x[half_n - 1] + x[half_n]) / 2.0;
+                stats->median = ((double)x[half_n - 1] + x[half_n]) / 2.0;
                 if (half_n & 1) {
                         stats->lower_quartile = x[half_half_n];
                         stats->upper_quartile = x[half_n + half_half_n];
                 } else {
-                        stats->lower_quartile = (x[half_half_n - 1] + x[half_half_n]) / 2.0;
-                        stats->upper_quartile = (x[half_n + half_half_n - 1] + x[half_n + half_half_n]) / 2.0;
+                        stats->lower_quartile = ((double)x[half_half_n - 1] + x[half_half_n]) / 2.0;
+                        stats->upper_quartile = ((double)x[half_n + half_half_n - 1] + x[half_n + half_half_n]) / 2.0;
                 }
         }
         stats->interquartile_range = stats->upper_quartile - stats->lower_quartile;
-- 
2.43.0


From bcfe4be64fbf9795e6e3688cd21a2effea26aac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:36 +0000
Subject: [PATCH 66/97] fix: count the edges of adjacency list graphs

---
 src/nx_graph.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nx_graph.c b/src/nx_graph.c
index 777811d..a5bb994 100644
--- a/src/nx_graph.c
+++ b/src/nx_graph.c
@@ -150,10 +150,12 @@ void nx_graph_insert_adj_lst(struct NXGraphAdjLst *g,
         }
 
         struct NXGraphEdge *e = nx_graph_edge_list_seach(g->edges[v], w);
-        if (e)
+        if (e) {
                 e->weight = weight;
-        else
+        } else {
                 g->edges[v] = nx_graph_edge_new(w, weight, g->edges[v]);
+                g->n_e++;
+        }
 
         e = nx_graph_edge_list_seach(g->edges[w], v);
         if (e)
-- 
2.43.0


From 58a9ce6191ce571d528a3937c8aca1de44177781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:36 +0000
Subject: [PATCH 67/97] fix: keep single precision uniform samples below one

---
 src/nx_uniform_sampler.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nx_uniform_sampler.c b/src/nx_uniform_sampler.c
index fa94b8f..b354d6a 100644
--- a/src/nx_uniform_sampler.c
+++ b/src/nx_uniform_sampler.c
@@ -25,6 +25,7 @@
  */
 #include "virg/nexus/nx_uniform_sampler.h"
 
+#include <float.h>
 #include <stdlib.h>
 #include <time.h>
 
@@ -113,7 +114,9 @@ void nx_uniform_sampler_fill64(struct NXUniformSampler *sampler, int n, uint64_t
 
 float nx_uniform_sampler_sample_s(struct NXUniformSampler *sampler)
 {
-        return sfmt_genrand_real2(&sampler->state);
+        // values next to one round up to one in single precision
+        float u = sfmt_genrand_real2(&sampler->state);
+        return u < 1.0f ? u : 1.0f - FLT_EPSILON / 2.0f;
 }
 
 double nx_uniform_sampler_sample_d(struct NXUniformSampler *sampler)
-- 
2.43.0


From 7f3bb702163e8f3522972f52f4f71eb621c87ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:53 +0000
Subject: [PATCH 68/97] fix: find the maximum of vectors holding only the
 lowest value

---
 include/virg/nexus/nx_vec.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/virg/nexus/nx_vec.h b/include/virg/nexus/nx_vec.h
index 96d6a43..05c68cd 100644
--- a/include/virg/nexus/nx_vec.h
+++ b/include/virg/nexus/nx_vec.h
@@ -169,9 +169,9 @@ static inline int nx_svec_max_idx(int n, const float *v)
         NX_ASSERT(n >= 0);
 
         int max_idx = -1;
-        float max_val = -FLT_MAX;
+        float max_val = -INFINITY;
         for (int i = 0; i < n; ++i) {
-                if (v[i] > max_val) {
+                if (v[i] > max_val || (max_idx < 0 && v[i] == max_val)) {
                         max_idx = i;
                         max_val = v[i];
                 }
@@ -224,7 +224,7 @@ static inline int nx_ivec_max_idx(int n, const int *v)
         int max_idx = -1;
         int max_val = INT_MIN;
         for (int i = 0; i < n; ++i) {
-                if (v[i] > max_val) {
+                if (v[i] > max_val || max_idx < 0) {
                         max_idx = i;
                         max_val = v[i];
                 }
-- 
2.43.0


From c4cd839e3bfba00bfbedc2f1ccba0f7085d519c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:26 +0000
Subject: [PATCH 69/97] fix: draw four distinct matches for homography
 hypotheses

---
 src/nx_homography.c      | 2 +-
 src/nx_usac_homography.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_homography.c b/src/nx_homography.c
index eb8d915..46c6195 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -270,7 +270,7 @@ static inline void nx_select_prosac_candidates(int n_top, int corr_ids[4])
 
         do {
             corr_ids[3] = (int)(NX_UNIFORM_SAMPLE_S*n_top);
-        } while(corr_ids[3]==corr_ids[1] || corr_ids[3]==corr_ids[1] || corr_ids[3]==corr_ids[0]);
+        } while(corr_ids[3]==corr_ids[2] || corr_ids[3]==corr_ids[1] || corr_ids[3]==corr_ids[0]);
 }
 
 int nx_homography_estimate_ransac(double *h, int n_corr, struct NXPointMatch2D *corr_list, double inlier_tolerance, int max_n_iter)
diff --git a/src/nx_usac_homography.c b/src/nx_usac_homography.c
index 6f6f96c..b5b3f2f 100644
--- a/src/nx_usac_homography.c
+++ b/src/nx_usac_homography.c
@@ -61,7 +61,7 @@ void nx_usac_homography_sampling(int *sample_ids, void *data)
 
         do {
             sample_ids[3] = (int)(NX_UNIFORM_SAMPLE_S * hdata->n_top_hypo);
-        } while(sample_ids[3]==sample_ids[1] || sample_ids[3]==sample_ids[1] || sample_ids[3]==sample_ids[0]);
+        } while(sample_ids[3]==sample_ids[2] || sample_ids[3]==sample_ids[1] || sample_ids[3]==sample_ids[0]);
 }
 
 NXBool nx_usac_check_homography_sample(const int *sample_ids,
-- 
2.43.0


From c5898f5ea7e0870780a699ac8ad8f401d7d8988b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:26 +0000
Subject: [PATCH 70/97] fix: reject degenerate source points in the four point
 homography

---
 src/nx_homography.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nx_homography.c b/src/nx_homography.c
index 46c6195..6d0d08d 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -157,7 +157,8 @@ double nx_homography_estimate_4pt(double *h, const int corr_ids[4], const struct
         }
 
         double hu[9];
-        nx_homography_estimate_unit(hu, x);
+        if (nx_homography_estimate_unit(hu, x) == 0.0)
+                return 0.0;
 
         double xp[8];
         for( int i = 0; i < 4; ++i ) {
-- 
2.43.0


From b2ed2b2a57d9e84b1397b5224279620a529f6b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:26 +0000
Subject: [PATCH 71/97] fix: do not score or return uninitialized models in
 homography RANSAC

---
 src/nx_homography.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nx_homography.c b/src/nx_homography.c
index 6d0d08d..0c71f72 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -278,7 +278,7 @@ int nx_homography_estimate_ransac(double *h, int n_corr, struct NXPointMatch2D *
 {
         double min_angle = 15.0 * NX_PI / 180.0;
         double max_abs_cos = fabs(cos(min_angle));
-        double h_best[9];
+        double h_best[9] = { 0.0 };
         int n_inliers_best = 0;
         int n_inliers = 0;
         int corr_ids[4];
@@ -310,7 +310,9 @@ int nx_homography_estimate_ransac(double *h, int n_corr, struct NXPointMatch2D *
                 det = nx_homography_estimate_4pt(h, corr_ids, corr_list);
             } while ((det == 0.0) && --tries && !nx_homography_check(h, max_abs_cos));
 
-            n_inliers = nx_homography_mark_inliers(h, n_corr, corr_list, inlier_tolerance);
+            n_inliers = 0;
+            if (det != 0.0)
+                n_inliers = nx_homography_mark_inliers(h, n_corr, corr_list, inlier_tolerance);
 
             // update if we got sth. better than current best
             if (n_inliers > n_inliers_best) {
-- 
2.43.0


From 16835a0e54ef6aeb1354d993409afe3a36dca308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:26 +0000
Subject: [PATCH 72/97] fix: compare USAC scores without converting them to int

---
 src/nx_usac_homography.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nx_usac_homography.c b/src/nx_usac_homography.c
index b5b3f2f..a0f8edc 100644
--- a/src/nx_usac_homography.c
+++ b/src/nx_usac_homography.c
@@ -177,9 +177,8 @@ NXBool nx_usac_homography_terminate(const double *best_model,
                 hdata->n_top_hypo = hdata->n_corr;
         }
 
-        int n_inliers = (int)best_score;
         return hdata->n_iterations >= hdata->max_n_iter
-                || n_inliers >= 200;
+                || best_score >= 200;
 
         // unused
         (void)best_model;
-- 
2.43.0


From 6cecd609ca51a3cf577912816d6117aa3d77bc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:26 +0000
Subject: [PATCH 73/97] fix: return a defined residual from minimal DLT
 solutions

---
 src/nx_epipolar.c   | 2 +-
 src/nx_homography.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index 1273bb1..dbb03c5 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -75,7 +75,7 @@ static inline void nx_fundamental_constraints_from_corr(double *rcons, const str
 static inline double nx_fundamental_svd_solve(double *F, int n_corr, double *A)
 {
         double U[9*9];
-        double S[9];
+        double S[9] = { 0.0 };
         nx_dsvd_us(&U[0], 9, &S[0], 9, n_corr, A, 9);
 
         F[0] = U[9*8+0];
diff --git a/src/nx_homography.c b/src/nx_homography.c
index 0c71f72..35681d3 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -199,7 +199,7 @@ static inline void nx_homography_constraints_from_corr(double *rcons, const stru
 static inline double nx_homography_svd_solve(double *h, int n_corr, double *A)
 {
         double U[9*9];
-        double S[9];
+        double S[9] = { 0.0 };
         nx_dsvd_us(&U[0], 9, &S[0], 9, 2*n_corr, A, 9);
 
         h[0] = U[9*8+0];
-- 
2.43.0


From 982f842f1e5172dfeb1a4123ecd275bb64cfd8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:26 +0000
Subject: [PATCH 74/97] fix: normalize directions by their length in the
 homography check

---
 src/nx_homography.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_homography.c b/src/nx_homography.c
index 35681d3..fb1ad52 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -74,7 +74,7 @@ NXBool nx_homography_check(const double *h, double max_abs_cos)
         double l_AC[3];
         line_eqn_2d(&A[0], &C[0], &l_AC[0]);
 
-        double n_inv = 1.0 / (l_AC[0]*l_AC[0] + l_AC[1]*l_AC[1]);
+        double n_inv = 1.0 / sqrt(l_AC[0]*l_AC[0] + l_AC[1]*l_AC[1]);
         l_AC[0] *= n_inv;
         l_AC[1] *= n_inv;
         l_AC[2] *= n_inv;
@@ -87,7 +87,7 @@ NXBool nx_homography_check(const double *h, double max_abs_cos)
         double AC[2] = { -l_AC[1], l_AC[0] };
         double BD[2] = { B[0] - D[0], B[1] - D[1] };
 
-        n_inv = 1.0 / (BD[0]*BD[0] + BD[1]*BD[1]);
+        n_inv = 1.0 / sqrt(BD[0]*BD[0] + BD[1]*BD[1]);
         BD[0] *= n_inv;
         BD[1] *= n_inv;
 
-- 
2.43.0


From c1ef10fbe4a5253ccc1d0ccc6f3d4be3b0fecc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:26 +0000
Subject: [PATCH 75/97] fix: keep matches intact when normalizing degenerate
 match sets

---
 src/nx_point_match_2d_stats.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/nx_point_match_2d_stats.c b/src/nx_point_match_2d_stats.c
index 624ba6f..d30518b 100644
--- a/src/nx_point_match_2d_stats.c
+++ b/src/nx_point_match_2d_stats.c
@@ -56,6 +56,11 @@ void nx_point_match_2d_stats_normalize_matches(struct NXPointMatch2DStats *stats
                                                int n_corr,
                                                struct NXPointMatch2D *corr_list)
 {
+        if (n_corr == 0) {
+                nx_point_match_2d_stats_reset(stats);
+                return;
+        }
+
         memset(stats, 0, sizeof(*stats));
 
         for (int i = 0; i < n_corr; ++i) {
@@ -85,6 +90,12 @@ void nx_point_match_2d_stats_normalize_matches(struct NXPointMatch2DStats *stats
         stats->d /= n_corr;
         stats->dp /= n_corr;
 
+        // All points coincide, translation alone normalizes them
+        if (stats->d == 0.0)
+                stats->d = 1.0;
+        if (stats->dp == 0.0)
+                stats->dp = 1.0;
+
         for (int i = 0; i < n_corr; ++i) {
                 struct NXPointMatch2D *corr = corr_list + i;
                 corr->x[0]     /= stats->d;
-- 
2.43.0


From d2d71b98ed60b26cdbc8a7d964aef2e572718163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:26 +0000
Subject: [PATCH 76/97] fix: draw eight distinct matches for fundamental matrix
 hypotheses

---
 src/nx_epipolar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index dbb03c5..c0ddf21 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -195,7 +195,7 @@ static inline void nx_select_prosac_candidates(int n_top, int corr_ids[8])
         corr_ids[0] = (int)(NX_UNIFORM_SAMPLE_S*n_top);
         for (int i = 1; i < 8; ++i) {
                 corr_ids[i] = (int)(NX_UNIFORM_SAMPLE_S*n_top);
-                for (int j = i-1; j > 0; --j)
+                for (int j = i-1; j >= 0; --j)
                         if (corr_ids[i] == corr_ids[j]) {
                                 --i;
                                 break;
-- 
2.43.0


From 5416a488f9245d645ea768e8bad398aa526b7706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:26 +0000
Subject: [PATCH 77/97] fix: do not return uninitialized fundamental matrices
 from RANSAC

---
 src/nx_epipolar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index c0ddf21..7f82c03 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -210,7 +210,7 @@ int nx_fundamental_estimate_ransac(double *F, int n_corr,
         NX_ASSERT_PTR(F);
         NX_ASSERT_PTR(corr_list);
 
-        double F_best[9];
+        double F_best[9] = { 0.0 };
         int n_inliers_best = 0;
         int n_inliers = 0;
         int corr_ids[8];
-- 
2.43.0


From 85abfc10801f804b898c7bf0f5a8ef4a6002346a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:26 +0000
Subject: [PATCH 78/97] fix: do not denormalize models that were not estimated

---
 src/nx_epipolar.c   | 3 ++-
 src/nx_homography.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index 7f82c03..3eb8763 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -291,7 +291,8 @@ int nx_fundamental_estimate_norm_ransac(double *F, int n_corr,
         int n_inliers = nx_fundamental_estimate_ransac(F, n_corr, corr_list,
                                                        norm_tol, max_n_iter);
 
-        nx_point_match_2d_stats_denormalize_fundamental(stats, F);
+        if (n_inliers > 0)
+                nx_point_match_2d_stats_denormalize_fundamental(stats, F);
         nx_point_match_2d_stats_denormalize_matches(stats, n_corr, corr_list);
         nx_point_match_2d_stats_free(stats);
 
diff --git a/src/nx_homography.c b/src/nx_homography.c
index fb1ad52..113750f 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -355,7 +355,8 @@ int nx_homography_estimate_norm_ransac(double *h, int n_corr,
         double norm_tol = inlier_tolerance / stats->dp;
         int n_inliers = nx_homography_estimate_ransac(h, n_corr, corr_list, norm_tol, max_n_iter);
 
-        nx_point_match_2d_stats_denormalize_homography(stats, h);
+        if (n_inliers > 0)
+                nx_point_match_2d_stats_denormalize_homography(stats, h);
         nx_point_match_2d_stats_denormalize_matches(stats, n_corr, corr_list);
         nx_point_match_2d_stats_free(stats);
 
-- 
2.43.0


From 2bbb94c20ce754e2ba40efe39e540048f3b5c880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:26 +0000
Subject: [PATCH 79/97] fix: triangulate no more points than requested

---
 src/nx_pinhole.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_pinhole.c b/src/nx_pinhole.c
index 138ff35..438b32b 100644
--- a/src/nx_pinhole.c
+++ b/src/nx_pinhole.c
@@ -144,7 +144,7 @@ int nx_pinhole_triangulate(int n_pt, float *X, int *corr_ids,
         double U[16];
         double S[4];
         int pt_i = 0;
-        for (int i = 0; i < n_corr; ++i) {
+        for (int i = 0; i < n_corr && pt_i < n; ++i) {
                 if (corr_list[i].is_inlier) {
                         nx_triangulation_constraints_from_corr(&A[0],
                                                                corr_list + i,
-- 
2.43.0


From 70e850db314d073ffa8da8f2c790cf719f290073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:45 +0000
Subject: [PATCH 80/97] fix: retry degenerate or implausible homography
 hypotheses

---
 src/nx_homography.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_homography.c b/src/nx_homography.c
index 113750f..f442d1a 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -308,7 +308,7 @@ int nx_homography_estimate_ransac(double *h, int n_corr, struct NXPointMatch2D *
             do {
                 nx_select_prosac_candidates(n_top_hypo, corr_ids);
                 det = nx_homography_estimate_4pt(h, corr_ids, corr_list);
-            } while ((det == 0.0) && --tries && !nx_homography_check(h, max_abs_cos));
+            } while ((det == 0.0 || !nx_homography_check(h, max_abs_cos)) && --tries);
 
             n_inliers = 0;
             if (det != 0.0)
-- 
2.43.0


From f663b3abef4dde08dd24134b38ac6f3fa627f8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:59 +0000
Subject: [PATCH 81/97] fix: reject collinear source points in the four point
 homography

---
 src/nx_homography.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_homography.c b/src/nx_homography.c
index f442d1a..85b5c8c 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -157,7 +157,7 @@ double nx_homography_estimate_4pt(double *h, const int corr_ids[4], const struct
         }
 
         double hu[9];
-        if (nx_homography_estimate_unit(hu, x) == 0.0)
+        if (nx_homography_estimate_unit(hu, x) == 0.0 || nx_dmat3_det(hu) == 0.0)
                 return 0.0;
 
         double xp[8];
-- 
2.43.0


From 02c0138648cede03b70041c86a88ecaa62482d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:04 +0000
Subject: [PATCH 82/97] fix: use the columns of the second camera matrix for
 the essential matrix

---
 src/nx_epipolar.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index 3eb8763..e4881ab 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -317,12 +317,12 @@ void nx_essential_from_fundamental(double *E, const double *F,
         E[0] = Kp[0]*Fk[0];
         E[3] = Kp[0]*Fk[3];
         E[6] = Kp[0]*Fk[6];
-        E[1] = Kp[1]*Fk[0] + Kp[4]*Fk[1];
-        E[4] = Kp[1]*Fk[3] + Kp[4]*Fk[4];
-        E[7] = Kp[1]*Fk[6] + Kp[4]*Fk[7];
-        E[2] = Kp[2]*Fk[0] + Kp[5]*Fk[1] + Fk[2];
-        E[5] = Kp[2]*Fk[3] + Kp[5]*Fk[4] + Fk[5];
-        E[8] = Kp[2]*Fk[6] + Kp[5]*Fk[7] + Fk[8];
+        E[1] = Kp[3]*Fk[0] + Kp[4]*Fk[1];
+        E[4] = Kp[3]*Fk[3] + Kp[4]*Fk[4];
+        E[7] = Kp[3]*Fk[6] + Kp[4]*Fk[7];
+        E[2] = Kp[6]*Fk[0] + Kp[7]*Fk[1] + Fk[2];
+        E[5] = Kp[6]*Fk[3] + Kp[7]*Fk[4] + Fk[5];
+        E[8] = Kp[6]*Fk[6] + Kp[7]*Fk[7] + Fk[8];
 }
 
 
-- 
2.43.0


From 517e3855039b3b346e679562b3421f685285eac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:51 +0000
Subject: [PATCH 83/97] fix: set the axis labels instead of the title in
 gnuplot label calls

---
 src/nx_gnuplot.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_gnuplot.c b/src/nx_gnuplot.c
index c26cea2..3b847c1 100644
--- a/src/nx_gnuplot.c
+++ b/src/nx_gnuplot.c
@@ -202,7 +202,7 @@ void nx_gnuplot_set_xlabel(struct NXGNUPlot *gnuplot,
         NX_ASSERT_PTR(gnuplot);
         NX_ASSERT_PTR(label);
 
-        nx_gnuplot_send_command(gnuplot, "set title xlabel \"%s\";\n", label);
+        nx_gnuplot_send_command(gnuplot, "set xlabel \"%s\";\n", label);
 }
 
 void nx_gnuplot_set_ylabel(struct NXGNUPlot *gnuplot,
@@ -211,7 +211,7 @@ void nx_gnuplot_set_ylabel(struct NXGNUPlot *gnuplot,
         NX_ASSERT_PTR(gnuplot);
         NX_ASSERT_PTR(label);
 
-        nx_gnuplot_send_command(gnuplot, "set title ylabel \"%s\";\n", label);
+        nx_gnuplot_send_command(gnuplot, "set ylabel \"%s\";\n", label);
 }
 
 void nx_gnuplot_set_title_and_labels(struct NXGNUPlot *gnuplot, const char *title,
-- 
2.43.0


From 5e83fe6a5ba155f1bbb88b15141dd3d641ad61b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:51 +0000
Subject: [PATCH 84/97] fix: pass control points before the end point of curves
 to cairo

---
 src/nx_gc_cairo_imp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nx_gc_cairo_imp.c b/src/nx_gc_cairo_imp.c
index aa4c338..bcdbe69 100644
--- a/src/nx_gc_cairo_imp.c
+++ b/src/nx_gc_cairo_imp.c
@@ -310,7 +310,7 @@ void nx_gc_curve_to(struct NXGC* gc, double x_e, double y_e,
         NX_ASSERT_PTR(gc->ctx);
         NX_ASSERT_PTR(gc->surface);
 
-        cairo_curve_to(gc->ctx, x_e, y_e, c1x, c1y, c2x, c2y);
+        cairo_curve_to(gc->ctx, c1x, c1y, c2x, c2y, x_e, y_e);
 }
 
 void nx_gc_rel_curve_to(struct NXGC* gc, double dx_e, double dy_e,
@@ -320,7 +320,7 @@ void nx_gc_rel_curve_to(struct NXGC* gc, double dx_e, double dy_e,
         NX_ASSERT_PTR(gc->ctx);
         NX_ASSERT_PTR(gc->surface);
 
-        cairo_curve_to(gc->ctx, dx_e, dy_e, c1dx, c1dy, c2dx, c2dy);
+        cairo_rel_curve_to(gc->ctx, c1dx, c1dy, c2dx, c2dy, dx_e, dy_e);
 }
 
 void nx_gc_curve(struct NXGC* gc, double x_s, double y_s, double x_e, double y_e,
@@ -331,7 +331,7 @@ void nx_gc_curve(struct NXGC* gc, double x_s, double y_s, double x_e, double y_e
         NX_ASSERT_PTR(gc->surface);
 
         cairo_move_to(gc->ctx, x_s, y_s);
-        cairo_curve_to(gc->ctx, x_e, y_e, c1x, c1y, c2x, c2y);
+        cairo_curve_to(gc->ctx, c1x, c1y, c2x, c2y, x_e, y_e);
 }
 
 void nx_gc_draw_text(struct NXGC* gc, double x, double y, const char* txt, double font_sz)
-- 
2.43.0


From 1474558a18537ed44dd7a60e229da635e456101d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:51 +0000
Subject: [PATCH 85/97] fix: A4 page size of graphics contexts is already in
 points

---
 src/vg_graphics_context.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vg_graphics_context.cc b/src/vg_graphics_context.cc
index 688ebf6..1d1e0ca 100644
--- a/src/vg_graphics_context.cc
+++ b/src/vg_graphics_context.cc
@@ -31,8 +31,8 @@ using std::shared_ptr;
 namespace virg {
 namespace nexus {
 
-const double VGGraphicsContext::A4_WIDTH_IN_PTS = NX_GC_MM_TO_POINTS*NX_GC_A4_WIDTH;
-const double VGGraphicsContext::A4_HEIGHT_IN_PTS = NX_GC_MM_TO_POINTS*NX_GC_A4_HEIGHT;
+const double VGGraphicsContext::A4_WIDTH_IN_PTS = NX_GC_A4_WIDTH;
+const double VGGraphicsContext::A4_HEIGHT_IN_PTS = NX_GC_A4_HEIGHT;
 
 VGGraphicsContext::VGGraphicsContext(struct NXGC* nx_gc)
         : m_gc(nx_gc, nx_gc_free)
-- 
2.43.0


From a08613edf1e64362c305b885b43856edd0638527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:51 +0000
Subject: [PATCH 86/97] fix: report graphics surfaces that could not be created

---
 src/nx_gc_cairo_imp.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/nx_gc_cairo_imp.c b/src/nx_gc_cairo_imp.c
index bcdbe69..6337767 100644
--- a/src/nx_gc_cairo_imp.c
+++ b/src/nx_gc_cairo_imp.c
@@ -67,13 +67,15 @@ struct NXGC* nx_gc_new(struct NXImage* img)
                                                           img->height,
                                                           img->row_stride);
 
-        if (!gc->surface) {
+        if (cairo_surface_status(gc->surface) != CAIRO_STATUS_SUCCESS) {
+                cairo_surface_destroy(gc->surface);
                 nx_free(gc);
                 NX_FATAL(NX_LOG_TAG, "Could not create Cairo surface for new GC from image.");
         }
 
         gc->ctx = cairo_create(gc->surface);
-        if (!gc->ctx) {
+        if (cairo_status(gc->ctx) != CAIRO_STATUS_SUCCESS) {
+                cairo_destroy(gc->ctx);
                 cairo_surface_destroy(gc->surface);
                 nx_free(gc);
                 NX_FATAL(NX_LOG_TAG, "Could not create Cairo context for new GC from image.");
@@ -94,13 +96,15 @@ struct NXGC* nx_gc_new_pdf(const char* filename, double width, double height)
         gc->type = NX_GC_PDF;
 
         gc->surface = cairo_pdf_surface_create(filename, width, height);
-        if (!gc->surface) {
+        if (cairo_surface_status(gc->surface) != CAIRO_STATUS_SUCCESS) {
+                cairo_surface_destroy(gc->surface);
                 nx_free(gc);
                 NX_FATAL(NX_LOG_TAG, "Could not create Cairo surface for new PDF GC for file %s.", filename);
         }
 
         gc->ctx = cairo_create(gc->surface);
-        if (!gc->ctx) {
+        if (cairo_status(gc->ctx) != CAIRO_STATUS_SUCCESS) {
+                cairo_destroy(gc->ctx);
                 cairo_surface_destroy(gc->surface);
                 nx_free(gc);
                 NX_FATAL(NX_LOG_TAG, "Could not create Cairo context for new PDF GC for file %s.", filename);
@@ -121,13 +125,15 @@ struct NXGC* nx_gc_new_svg(const char* filename, double width, double height)
         gc->type = NX_GC_SVG;
 
         gc->surface = cairo_svg_surface_create(filename, width, height);
-        if (!gc->surface) {
+        if (cairo_surface_status(gc->surface) != CAIRO_STATUS_SUCCESS) {
+                cairo_surface_destroy(gc->surface);
                 nx_free(gc);
                 NX_FATAL(NX_LOG_TAG, "Could not create Cairo surface for new SVG GC for file %s.", filename);
         }
 
         gc->ctx = cairo_create(gc->surface);
-        if (!gc->ctx) {
+        if (cairo_status(gc->ctx) != CAIRO_STATUS_SUCCESS) {
+                cairo_destroy(gc->ctx);
                 cairo_surface_destroy(gc->surface);
                 nx_free(gc);
                 NX_FATAL(NX_LOG_TAG, "Could not create Cairo context for new SVG GC for file %s.", filename);
-- 
2.43.0


From 728695af565254a62534b875603393e0d940d676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:51 +0000
Subject: [PATCH 87/97] fix: report graphics output that could not be written

---
 src/nx_gc_cairo_imp.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/nx_gc_cairo_imp.c b/src/nx_gc_cairo_imp.c
index 6337767..f166db6 100644
--- a/src/nx_gc_cairo_imp.c
+++ b/src/nx_gc_cairo_imp.c
@@ -148,11 +148,16 @@ void nx_gc_free(struct NXGC* gc)
 {
         if (gc) {
                 nx_gc_flush(gc);
-                if (gc->surface)
-                        cairo_surface_destroy(gc->surface);
-
                 if (gc->ctx)
                         cairo_destroy(gc->ctx);
+
+                if (gc->surface) {
+                        cairo_surface_finish(gc->surface);
+                        if (cairo_surface_status(gc->surface) != CAIRO_STATUS_SUCCESS)
+                                NX_ERROR(NX_LOG_TAG, "Could not complete graphics output: %s",
+                                         cairo_status_to_string(cairo_surface_status(gc->surface)));
+                        cairo_surface_destroy(gc->surface);
+                }
         }
         nx_free(gc);
 }
-- 
2.43.0


From 859754ebe00bdc8f61654b4d4ad8cce66cd02a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:25 +0000
Subject: [PATCH 88/97] fix: do not dereference missing call stack symbols when
 out of memory

---
 src/nx_log_c_impl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nx_log_c_impl.c b/src/nx_log_c_impl.c
index 87910ce..1c6b8da 100644
--- a/src/nx_log_c_impl.c
+++ b/src/nx_log_c_impl.c
@@ -58,6 +58,9 @@ static inline void print_call_stack()
 
     char **bt_symbols = backtrace_symbols(bt_buffer, bt_sz);
 
+    if (!bt_symbols)
+        return;
+
     fprintf(LOG_STREAM, "Call stack:\n");
     for (int i = 0; i < bt_sz; ++i) {
         fprintf(LOG_STREAM, "   (%2d) %s\n", i, bt_symbols[i]);
-- 
2.43.0


From cc79a76fc01dfe7451704933bce93eaa6a6684d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:35 +0000
Subject: [PATCH 89/97] fix: check the row table allocation of FAST non-maximum
 suppression

---
 src/fast/fast_nonmax.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fast/fast_nonmax.c b/src/fast/fast_nonmax.c
index a9c74a7..c311bbe 100644
--- a/src/fast/fast_nonmax.c
+++ b/src/fast/fast_nonmax.c
@@ -29,6 +29,7 @@
 #include "stdlib.h"
 
 #include "virg/nexus/nx_keypoint.h"
+#include "virg/nexus/nx_alloc.h"
 
 #define Compare(X, Y) ((X)>=(Y))
 
@@ -57,7 +58,7 @@ void fast_nonmax_suppression(int *ret_num_nonmax, struct NXKeypoint *ret_nonmax,
 	   (the corners are output in raster scan order). A beginning of -1 signifies
 	   that there are no corners on that row. */
 	last_row = corners[num_corners-1].y;
-	row_start = (int*)malloc((last_row+1)*sizeof(int));
+	row_start = NX_NEW_I(last_row+1);
 
 	for(i=0; i < last_row+1; i++)
 		row_start[i] = -1;
@@ -138,6 +139,6 @@ void fast_nonmax_suppression(int *ret_num_nonmax, struct NXKeypoint *ret_nonmax,
                 ;
 	}
 
-	free(row_start);
+	nx_free(row_start);
 	*ret_num_nonmax = num_nonmax;
 }
-- 
2.43.0


From a39b4a19d7dfe40daf900c7f3ce9047240974b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:49 +0000
Subject: [PATCH 90/97] fix: images that do not connect to the reference are
 reported by nx-stitch

The shortest path search marked node -1 as visited when an image could not be
reached from the reference and the path walk then indexed with -1.
---
 tools/nx_panorama_builder.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tools/nx_panorama_builder.c b/tools/nx_panorama_builder.c
index 0558cb3..9b39024 100644
--- a/tools/nx_panorama_builder.c
+++ b/tools/nx_panorama_builder.c
@@ -261,6 +261,10 @@ int *nx_panorama_builder_find_shortest_paths(int n, double* weights, int source)
                         }
                 }
 
+                // remaining nodes are not reachable from the source
+                if (current < 0)
+                        break;
+
                 visited[current] = NX_TRUE;
                 n_not_visited--;
 
@@ -280,6 +284,7 @@ int *nx_panorama_builder_find_shortest_paths(int n, double* weights, int source)
         }
 
         nx_free(node_val);
+        nx_free(visited);
 
         return next_node;
 }
@@ -395,6 +400,10 @@ void nx_panorama_builder_init(struct NXPanoramaBuilder *builder)
         /* } */
 
         for (int i = 0; i < N; ++i) {
+                if (next_node[i] < 0)
+                        NX_FATAL(NX_LOG_TAG, "Could not match image %s to the rest of the panorama!",
+                                 nx_string_array_get(builder->image_names, i));
+
                 nx_dmat3_eye(builder->H_to_ref[i]);
                 int node = i;
                 int next = next_node[node];
-- 
2.43.0


From 5f0b6187f8fd1f7969238655e710798f01b7a7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:49 +0000
Subject: [PATCH 91/97] fix: undefined conversion of positions beyond the image
 while compositing panoramas

---
 tools/nx_panorama_builder.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/nx_panorama_builder.c b/tools/nx_panorama_builder.c
index 9b39024..120ab39 100644
--- a/tools/nx_panorama_builder.c
+++ b/tools/nx_panorama_builder.c
@@ -504,10 +504,10 @@ uchar nx_panorama_builder_composite_value(struct NXPanoramaBuilder *builder,
                 struct NXImage *img = builder->images[i];
                 float xp = xpc[0];
                 float yp = xpc[1];
-                int xpi = xp;
-                int ypi = yp;
-                if (xpi >= 0 && xpi < img->width
-                    && ypi >= 0 && ypi < img->height) {
+                if (xp > -1.0f && xp < img->width
+                    && yp > -1.0f && yp < img->height) {
+                        int xpi = xp;
+                        int ypi = yp;
                         v = img->data.uc[ypi * img->row_stride + xpi];
                 }
         }
-- 
2.43.0


From 279910ed8d91ff31cb00a475273db044278d3bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:49 +0000
Subject: [PATCH 92/97] fix: vg-stereo-matcher crashed when the right image has
 no keypoints

---
 tools/vg_stereo_matcher_main.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/vg_stereo_matcher_main.cc b/tools/vg_stereo_matcher_main.cc
index 43c71f4..b501193 100644
--- a/tools/vg_stereo_matcher_main.cc
+++ b/tools/vg_stereo_matcher_main.cc
@@ -122,7 +122,8 @@ static void build_frame(Frame& frm, string label, VGImage& img, bool is_verbose)
 static void match_frames(StereoFrame& stereo, bool is_verbose)
 {
         stereo.hcorr.clear();
-        int n_left = stereo.left.dmap.size();
+        // nothing to search if there are no keypoints on the right image
+        int n_left = stereo.right.dmap.size() > 0 ? stereo.left.dmap.size() : 0;
         for (int i = 0; i < n_left; ++i) {
                 const uchar* dleft = stereo.left.dmap.get_descriptor(i);
                 uint64_t id_left = stereo.left.dmap.get_id(i);
-- 
2.43.0


From ec7d1081f608d5c3828bc4ab30ec4f0e4f498cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:49 +0000
Subject: [PATCH 93/97] fix: vg-stereo-matcher failed on every pair with a
 homography

The result of the symmetric solver was taken for a LAPACK info code, so that
success was fatal.  The normal matrix kept only the last residual of a wrongly
indexed Jacobian and retried steps used the previous step as the gradient.
---
 tools/vg_stereo_matcher_main.cc | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/tools/vg_stereo_matcher_main.cc b/tools/vg_stereo_matcher_main.cc
index b501193..0f9c806 100644
--- a/tools/vg_stereo_matcher_main.cc
+++ b/tools/vg_stereo_matcher_main.cc
@@ -324,7 +324,7 @@ static void lev_mar_compute_A(int n, double *A, double lambda,
                 for (int r = 0; r < n; ++r) {
                         A[c * n + r] = 0.0;
                         for (int k = 0; k < m; ++k) {
-                                A[c * n + r] = Jt[k * n + r] * Jt[c * m + k];
+                                A[c * n + r] += Jt[k * n + r] * Jt[k * n + c];
                         }
                 }
         }
@@ -357,20 +357,23 @@ static int estimate_homography_nonlinear(StereoFrame& sf, bool is_verbose)
         double lambda = 1.0;
         double A[9*9];
         double hnew[9];
+        double delta[9];
+        const int MAX_N_TRIES = 40;
         for (int i = 0; i < 10; ++i) {
                 NXBool done = NX_FALSE;
                 double Enew;
-                while (!done) {
+                for (int tries = 0; !done && tries < MAX_N_TRIES; ++tries) {
                         lev_mar_compute_A(9, &A[0], lambda, 2*N, Jt);
                         int ipiv[9];
-                        int info = nx_dsym_solver(NX_SYMMETRIC_LOWER, 9, 1, &A[0], 9,
-                                                  &Jte[0], 9, &ipiv[0]);
-                        if (info != 0) {
-                                NX_FATAL("!", "info = %d", info);
+                        nx_dvec_copy(9, &delta[0], &Jte[0]);
+                        if (!nx_dsym_solver(NX_SYMMETRIC_LOWER, 9, 1, &A[0], 9,
+                                            &delta[0], 9, &ipiv[0])) {
+                                lambda *= 2.0;
+                                continue;
                         }
 
                         for (int j = 0; j < 9; ++j)
-                                hnew[j] = h[j] + Jte[j];
+                                hnew[j] = h[j] + delta[j];
 
                         Enew = homography_transfer_error_and_jacobian(n, pm, hnew,
                                                                       NULL, NULL);
@@ -381,13 +384,14 @@ static int estimate_homography_nonlinear(StereoFrame& sf, bool is_verbose)
                                 lambda *= 2.0;
                         }
                         NX_LOG(NX_LOG_TAG, "Enew = %.2e, lambda = %.2e", Enew, lambda);
-                        static int tries = 0;
-                        tries ++;
-                        if (tries > 40)
-                                NX_FATAL("NX!", "Quitting");
                 }
+
+                // no step decreases the error any further
+                if (!done)
+                        break;
+
                 for (int j = 0; j < 9; ++j)
-                        h[j] += Jte[j];
+                        h[j] += delta[j];
                 E = homography_transfer_error_and_jacobian(n, pm, h, e, Jt);
                 nx_dmat_mul(9, 1, 2*N, Jt, 9, e, 2*N, Jte, 9);
                 g_mag = 4.0 * nx_dvec_norm(9, &Jte[0]);
-- 
2.43.0


From d840df521e89f2591303d780b754365c93554949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:49 +0000
Subject: [PATCH 94/97] fix: nx-fit-homography measured transfer error of
 homographies not estimated

---
 tools/nx_fit_homography_main.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tools/nx_fit_homography_main.c b/tools/nx_fit_homography_main.c
index 9ec9b63..0c85d29 100644
--- a/tools/nx_fit_homography_main.c
+++ b/tools/nx_fit_homography_main.c
@@ -128,7 +128,7 @@ int main(int argc, char **argv)
                 int n_inliers = fit_ransac(&h[0], opt, imgs, stores,
                                            n_matches, matches);
 
-                if (vpts && n_vpts > 0) {
+                if (n_inliers > 0 && vpts && n_vpts > 0) {
                         double E_fwd = nx_homography_transfer_error_fwd(&h[0],
                                                                         n_vpts,
                                                                         vpts);
@@ -201,15 +201,18 @@ void ransac_benchmark(struct NXOptions *opt, struct NXImage **imgs,
 
         nx_point_match_2d_stats_denormalize_matches(stats, n_matches, matches);
         for (int i = 0; i < N_BENCHMARK_STEPS; ++i) {
-                nx_point_match_2d_stats_denormalize_homography(stats, h[i]);
+                if (n_inliers[i] > 0)
+                        nx_point_match_2d_stats_denormalize_homography(stats, h[i]);
         }
 
         struct NXStatistics1D e_fwd_stats;
         if (n_vpts > 0 && vpts) {
+                int n_estimated = 0;
                 for (int i = 0; i < N_BENCHMARK_STEPS; ++i) {
-                        E_fwd[i] = nx_homography_transfer_error_fwd(h[i], n_vpts, vpts);
+                        if (n_inliers[i] > 0)
+                                E_fwd[n_estimated++] = nx_homography_transfer_error_fwd(h[i], n_vpts, vpts);
                 }
-                nx_dstatistics_1d(&e_fwd_stats, N_BENCHMARK_STEPS, E_fwd);
+                nx_dstatistics_1d(&e_fwd_stats, n_estimated, E_fwd);
         }
 
         struct NXStatistics1D inlier_stats;
@@ -283,7 +286,8 @@ int fit_ransac(double *h, struct NXOptions *opt, struct NXImage **imgs,
                                                 matches, norm_tol,
                                                 max_n_ransac_iter);
 
-        nx_point_match_2d_stats_denormalize_homography(stats, h);
+        if (n_inliers > 0)
+                nx_point_match_2d_stats_denormalize_homography(stats, h);
         nx_point_match_2d_stats_denormalize_matches(stats, n_matches, matches);
 
         if (is_verbose) {
-- 
2.43.0


From 1f81545ef2c7ccff94935bfd2ac21642ff61dc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:48 +0000
Subject: [PATCH 95/97] fix: flag no matches as inliers when homography
 estimation fails

---
 include/virg/nexus/nx_point_match_2d.h |  7 +++++++
 src/nx_homography.c                    |  8 ++++++--
 src/nx_usac_homography.c               | 10 +++++++---
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/virg/nexus/nx_point_match_2d.h b/include/virg/nexus/nx_point_match_2d.h
index b99e15d..0c24cba 100644
--- a/include/virg/nexus/nx_point_match_2d.h
+++ b/include/virg/nexus/nx_point_match_2d.h
@@ -74,6 +74,13 @@ nx_point_match_2d_count_inliers(int n_corr,
         return n_inliers;
 }
 
+static inline void
+nx_point_match_2d_clear_inliers(int n_corr, struct NXPointMatch2D *corr_list)
+{
+        for (int i = 0; i < n_corr; ++i)
+                corr_list[i].is_inlier = NX_FALSE;
+}
+
 static inline int
 nx_point_match_2d_cmp_match_cost(const void *m0, const void *m1)
 {
diff --git a/src/nx_homography.c b/src/nx_homography.c
index 85b5c8c..c53f718 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -283,8 +283,10 @@ int nx_homography_estimate_ransac(double *h, int n_corr, struct NXPointMatch2D *
         int n_inliers = 0;
         int corr_ids[4];
 
-        if (n_corr < 4)
+        if (n_corr < 4) {
+            nx_point_match_2d_clear_inliers(n_corr, corr_list);
             return 0;
+        }
 
         // This routine mimics PROSAC by reordering and sampling from the top
         // group. In every iteration the top group grows by PROSAC_INC
@@ -339,8 +341,10 @@ int nx_homography_estimate_ransac(double *h, int n_corr, struct NXPointMatch2D *
         }
 
         // last check for homography, return zero inliers if fails.
-        if (!nx_homography_check(h, max_abs_cos))
+        if (!nx_homography_check(h, max_abs_cos)) {
+            nx_point_match_2d_clear_inliers(n_corr, corr_list);
             return 0;
+        }
 
         return n_inliers_best;
 }
diff --git a/src/nx_usac_homography.c b/src/nx_usac_homography.c
index a0f8edc..442a85b 100644
--- a/src/nx_usac_homography.c
+++ b/src/nx_usac_homography.c
@@ -190,8 +190,10 @@ int nx_usac_estimate_homography(double *h, int n_corr,
 {
         const int PROSAC_START = 10;
 
-        if (n_corr < 4)
+        if (n_corr < 4) {
+            nx_point_match_2d_clear_inliers(n_corr, corr_list);
             return 0;
+        }
 
         qsort((void *)corr_list, n_corr, sizeof(struct NXPointMatch2D),
               nx_point_match_2d_cmp_match_cost);
@@ -222,8 +224,10 @@ int nx_usac_estimate_homography(double *h, int n_corr,
                                                    corr_list, inlier_tolerance);
 
         // last check for homography, return zero inliers if fails.
-        if (!nx_usac_check_homography(h, NULL, &data))
+        if (!nx_usac_check_homography(h, NULL, &data)) {
+                nx_point_match_2d_clear_inliers(n_corr, corr_list);
                 return 0;
-        else
+        } else {
                 return n_inliers;
+        }
 }
-- 
2.43.0


From e2cc5c015197ed5d56df113da6785c869099566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:48 +0000
Subject: [PATCH 96/97] fix: flag no matches as inliers when there are too few
 for a fundamental matrix

---
 src/nx_epipolar.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index e4881ab..2ebeeba 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -217,6 +217,7 @@ int nx_fundamental_estimate_ransac(double *F, int n_corr,
 
         if (n_corr < 8) {
                 NX_WARNING(NX_LOG_TAG, "Insufficient number (< 8) of correspondences for fundamental matrix estimation with RANSAC!");
+                nx_point_match_2d_clear_inliers(n_corr, corr_list);
                 return 0;
         }
         NX_ASSERT(n_corr >= 8);
-- 
2.43.0


From e8a5bd89cc9a19929df1bd9d93b208ea49665163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:48 +0000
Subject: [PATCH 97/97] fix: compute the row offsets of very large image files
 without overflow

---
 src/nx_image_io_jpeg.c |  8 ++++----
 src/nx_image_io_png.c  |  4 ++--
 src/nx_image_io_pnm.c  | 12 ++++++------
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/nx_image_io_jpeg.c b/src/nx_image_io_jpeg.c
index 41a88fa..ab25d25 100644
--- a/src/nx_image_io_jpeg.c
+++ b/src/nx_image_io_jpeg.c
@@ -86,7 +86,7 @@ static NXResult save_as_jpeg(const struct NXImage *img, FILE *jpeg_stream)
 
         if (img->type == NX_IMAGE_GRAYSCALE) {
                 while (cinfo.next_scanline < cinfo.image_height) {
-                        JSAMPROW row_pointer = (JSAMPROW)((unsigned char*)(img->data.uc + cinfo.next_scanline * img->row_stride));
+                        JSAMPROW row_pointer = (JSAMPROW)((unsigned char*)(img->data.uc + (size_t)cinfo.next_scanline * img->row_stride));
                         jpeg_write_scanlines(&cinfo, &row_pointer, 1);
                 }
         } else if (img->type == NX_IMAGE_RGBA) {
@@ -94,7 +94,7 @@ static NXResult save_as_jpeg(const struct NXImage *img, FILE *jpeg_stream)
                 buffer = NX_NEW_UC(3*img->width);
                 JSAMPROW row_pointer = (JSAMPROW)(buffer);
                 while (cinfo.next_scanline < cinfo.image_height) {
-                        const unsigned char* read_row = img->data.uc + cinfo.next_scanline * img->row_stride;
+                        const unsigned char* read_row = img->data.uc + (size_t)cinfo.next_scanline * img->row_stride;
                         for(x = 0; x < img->width; ++x) {
                                 buffer[3*x]   = read_row[4*x];
                                 buffer[3*x+1] = read_row[4*x+1];
@@ -194,7 +194,7 @@ static NXResult load_as_jpeg(struct NXImage *img, FILE *jpeg_stream,
 
         if (cinfo.out_color_space == JCS_GRAYSCALE) {
                 while (cinfo.output_scanline < cinfo.output_height) {
-                        JSAMPROW row_pointer = (JSAMPROW)(img->data.uc + cinfo.output_scanline * img->row_stride);
+                        JSAMPROW row_pointer = (JSAMPROW)(img->data.uc + (size_t)cinfo.output_scanline * img->row_stride);
                         jpeg_read_scanlines(&cinfo, &row_pointer, 1);
                 }
         } else {
@@ -202,7 +202,7 @@ static NXResult load_as_jpeg(struct NXImage *img, FILE *jpeg_stream,
                 buffer = NX_NEW_UC(3*img->width);
                 JSAMPROW row_pointer = (JSAMPROW)(buffer);
                 while (cinfo.output_scanline < cinfo.output_height) {
-                        uchar* write_row = img->data.uc + cinfo.output_scanline * img->row_stride;
+                        uchar* write_row = img->data.uc + (size_t)cinfo.output_scanline * img->row_stride;
                         jpeg_read_scanlines(&cinfo, &row_pointer, 1);
                         for(x = 0; x < img->width; ++x) {
                                 write_row[4*x]     = buffer[3*x];
diff --git a/src/nx_image_io_png.c b/src/nx_image_io_png.c
index 5397049..1c2db8e 100644
--- a/src/nx_image_io_png.c
+++ b/src/nx_image_io_png.c
@@ -100,7 +100,7 @@ static NXResult save_as_png(const struct NXImage *img, FILE *fout)
         }
 
         for (png_int_32 k = 0; k < img->height; k++) {
-                row_pointers[k] = (unsigned char*)(img->data.uc + k*img->row_stride);
+                row_pointers[k] = (unsigned char*)(img->data.uc + (size_t)k * img->row_stride);
         }
 
         png_write_image(png_ptr, row_pointers);
@@ -198,7 +198,7 @@ static NXResult load_as_png(struct NXImage *img, FILE *fin,
 
         row_pointers = NX_NEW(img->height, png_bytep);
         for (int row = 0; row < img->height; row++) {
-                row_pointers[row] = img->data.uc + row * img->row_stride;
+                row_pointers[row] = img->data.uc + (size_t)row * img->row_stride;
         }
 
         png_read_image(png_ptr, row_pointers);
diff --git a/src/nx_image_io_pnm.c b/src/nx_image_io_pnm.c
index ad82aba..43c7397 100644
--- a/src/nx_image_io_pnm.c
+++ b/src/nx_image_io_pnm.c
@@ -44,7 +44,7 @@ static NXResult save_as_pnm(const struct NXImage *img, FILE *pnm)
                 fprintf(pnm, "%s\n%d %d %d\n", magic_head, img->width, img->height, 255);
 
                 for (int y = 0; y < img->height; ++y) {
-                        const uchar *row = img->data.uc + y * img->row_stride;
+                        const uchar *row = img->data.uc + (size_t)y * img->row_stride;
                         fwrite((const void*)row, sizeof(uchar), img->width, pnm);
                 }
         } else if (img->type == NX_IMAGE_RGBA) {
@@ -52,7 +52,7 @@ static NXResult save_as_pnm(const struct NXImage *img, FILE *pnm)
                 fprintf(pnm, "%s\n%d %d\n%d\n", magic_head, img->width, img->height, 255);
 
                 for (int y = 0; y < img->height; ++y) {
-                        const uchar *row = img->data.uc + y*img->row_stride;
+                        const uchar *row = img->data.uc + (size_t)y * img->row_stride;
                         for (int x = 0; x < img->width; ++x) {
                                 fwrite((const void*)(row+4*x), sizeof(uchar), 3, pnm);
                         }
@@ -112,13 +112,13 @@ static NXResult read_pnm_data(struct NXImage *img, enum NXImageType img_type,
         if (pnm_type == NX_IMAGE_GRAYSCALE) {
                 if (img_type == NX_IMAGE_GRAYSCALE) {
                         for (int y = 0; y < img->height; ++y) {
-                                uchar* row = img->data.uc + y * img->row_stride;
+                                uchar* row = img->data.uc + (size_t)y * img->row_stride;
                                 if (fread((void*)row, sizeof(uchar), img->width, pnm) != (size_t)img->width)
                                         return NX_FAIL;
                         }
                 } else if (img_type == NX_IMAGE_RGBA) {
                         for (int y = 0; y < img->height; ++y) {
-                                uchar* row = img->data.uc + y * img->row_stride;
+                                uchar* row = img->data.uc + (size_t)y * img->row_stride;
                                 for(int x = 0; x < img->width; ++x) {
                                         uchar value;
                                         if (fread((void*)&value, sizeof(uchar), 1, pnm) != 1)
@@ -135,7 +135,7 @@ static NXResult read_pnm_data(struct NXImage *img, enum NXImageType img_type,
         } else {
                 if (img_type == NX_IMAGE_GRAYSCALE) {
                         for (int y = 0; y < img->height; ++y) {
-                                uchar* row = img->data.uc + y * img->row_stride;
+                                uchar* row = img->data.uc + (size_t)y * img->row_stride;
                                 for (int x = 0; x < img->width; ++x) {
                                         uchar value[3];
                                         if (fread((void*)&value, sizeof(uchar), 3, pnm) != 3)
@@ -145,7 +145,7 @@ static NXResult read_pnm_data(struct NXImage *img, enum NXImageType img_type,
                         }
                 } else if (img_type == NX_IMAGE_RGBA) {
                         for (int y = 0; y < img->height; ++y) {
-                                uchar* row = img->data.uc + y * img->row_stride;
+                                uchar* row = img->data.uc + (size_t)y * img->row_stride;
                                 for (int x = 0; x < img->width; ++x) {
                                         if (fread((void*)(row + 4*x), sizeof(uchar), 3, pnm) != 3)
                                                 return NX_FAIL;
-- 
2.43.0

