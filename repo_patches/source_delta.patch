From 0e5f2493029a37f56462e036ec26ed5531594510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:22 +0000
Subject: [PATCH 01/43] fix: advance through the buffer when parsing from
 memory

Inputs longer than the matcher's first refill were parsed as if their
first bytes repeated.
---
 lib/src/parser.c       | 1 +
 lib/src/quick_parser.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 0ea585d..e6cb8b2 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -77,6 +77,7 @@ static int source_from_buffer(void *data, char *buf, int n)
         return len;
     }
     memcpy(buf, input->buffer, len);
+    input->buffer += len;
     return len;
 }
 
diff --git a/lib/src/quick_parser.c b/lib/src/quick_parser.c
index 070e6fe..a19077d 100644
--- a/lib/src/quick_parser.c
+++ b/lib/src/quick_parser.c
@@ -51,6 +51,7 @@ static int source_from_buffer(void *data, char *buf, int n)
         return len;
     }
     memcpy(buf, input->buffer, len);
+    input->buffer += len;
     return len;
 }
 
-- 
2.43.0


From 359226a77693cbf63baa01b734283385add5f70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 02/43] fix: report failure to grow a vector

The pushed element, rather than the new allocation, was tested for NULL.
---
 lib/src/vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/vector.c b/lib/src/vector.c
index cebe564..3412ba5 100644
--- a/lib/src/vector.c
+++ b/lib/src/vector.c
@@ -68,7 +68,7 @@ int cp_vector_push(struct cp_vector *vec, void *element)
         unsigned int newcap = (vec->capacity == 0)?
             CYPHER_VECTOR_BLOCK_SIZE : vec->capacity * 2;
         void *elements = realloc(vec->elements, newcap * vec->element_size);
-        if (element == NULL)
+        if (elements == NULL)
         {
             return -1;
         }
-- 
2.43.0


From 38cf3ee6f75074bc690b842822aca8355d9f8a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 03/43] fix: grow the print buffer when the text exactly fills
 it

Output whose length equals the capacity was truncated by vsnprintf (or left
unterminated), as room for the terminator was not considered.
---
 lib/src/ast.c  | 2 +-
 lib/src/util.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index 9ece2b5..235dbe3 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -605,7 +605,7 @@ static ssize_t cypher_astnode_detailstr_realloc(const cypher_astnode_t *node,
     {
         return -1;
     }
-    if ((size_t)width > *bufcap)
+    if ((size_t)width >= *bufcap)
     {
         char *newbuf = realloc(*buf, (size_t)width + 1);
         if (newbuf == NULL)
diff --git a/lib/src/util.c b/lib/src/util.c
index 857fd0e..c80f74e 100644
--- a/lib/src/util.c
+++ b/lib/src/util.c
@@ -34,7 +34,7 @@ ssize_t snprintf_realloc(char ** restrict buf, size_t *bufcap,
     {
         return -1;
     }
-    if ((size_t)width > *bufcap)
+    if ((size_t)width >= *bufcap)
     {
         char *newbuf = realloc(*buf, (size_t)width+1);
         if (newbuf == NULL)
-- 
2.43.0


From 2210949f778f307afd57a9ffa2e406c301ca1907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:53 +0000
Subject: [PATCH 04/43] fix: do not take the logarithm of zero when printing

The column widths were computed as (unsigned int)log10(max), which is
undefined when every node number or offset printed is 0.
---
 lib/src/ast.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index 235dbe3..2d0b1e4 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -19,7 +19,6 @@
 #include "astnode.h"
 #include "util.h"
 #include <assert.h>
-#include <math.h>
 
 
 struct cypher_astnode_vts
@@ -624,6 +623,17 @@ static ssize_t cypher_astnode_detailstr_realloc(const cypher_astnode_t *node,
 }
 
 
+static unsigned int decimal_width(size_t value)
+{
+    unsigned int width = 1;
+    for (; value >= 10; value /= 10)
+    {
+        ++width;
+    }
+    return width;
+}
+
+
 static void ast_fprint_field_widths(const cypher_astnode_t *ast,
         unsigned int *max_ordinal, size_t *max_start, size_t *max_end,
         unsigned int *name_width, unsigned int depth)
@@ -819,9 +829,9 @@ int cypher_ast_fprint(const cypher_astnode_t *ast, FILE *stream,
     size_t max_start = 0, max_end = 0;
     ast_fprint_field_widths(ast, &max_ordinal, &max_start, &max_end,
             &name_width, 0);
-    unsigned int ordinal_width = (unsigned int)log10(max_ordinal)+2;
-    unsigned int start_width = (unsigned int)log10(max_start)+1;
-    unsigned int end_width = (unsigned int)log10(max_end)+1;
+    unsigned int ordinal_width = decimal_width(max_ordinal)+1;
+    unsigned int start_width = decimal_width(max_start);
+    unsigned int end_width = decimal_width(max_end);
 
     size_t bufcap = 1024;
     char *buf = malloc(bufcap);
@@ -854,9 +864,9 @@ int cypher_ast_fprintv(cypher_astnode_t * const *asts, unsigned int n,
         ast_fprint_field_widths(asts[i], &max_ordinal, &max_start, &max_end,
                 &name_width, 0);
     }
-    unsigned int ordinal_width = (unsigned int)log10(max_ordinal)+2;
-    unsigned int start_width = (unsigned int)log10(max_start)+1;
-    unsigned int end_width = (unsigned int)log10(max_end)+1;
+    unsigned int ordinal_width = decimal_width(max_ordinal)+1;
+    unsigned int start_width = decimal_width(max_start);
+    unsigned int end_width = decimal_width(max_end);
 
     size_t bufcap = 1024;
     char *buf = malloc(bufcap);
-- 
2.43.0


From 155f76e738ddaf918a4e46ac11a7129f50621e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:53 +0000
Subject: [PATCH 05/43] fix: define cypher_parse_segment_get_root as declared

The function was defined under another name, so that using it failed to link.
---
 lib/src/segment.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/segment.c b/lib/src/segment.c
index 1a8cfea..e4c00b2 100644
--- a/lib/src/segment.c
+++ b/lib/src/segment.c
@@ -139,7 +139,7 @@ unsigned int cypher_parse_segment_nroots(const cypher_parse_segment_t *segment)
 }
 
 
-const cypher_astnode_t *cypher_parse_segment_get_node(
+const cypher_astnode_t *cypher_parse_segment_get_root(
         const cypher_parse_segment_t *segment, unsigned int index)
 {
     if (index >= segment->nroots)
-- 
2.43.0


From dfd0b1e0ce61c196b3ffad8788e53b25dd8620b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 06/43] fix: pass the node to the annotation release handler

The node was cleared from the annotation before the handler was invoked, which
therefore always received NULL.
---
 lib/src/annotation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/annotation.c b/lib/src/annotation.c
index 7239946..bcfad74 100644
--- a/lib/src/annotation.c
+++ b/lib/src/annotation.c
@@ -247,13 +247,14 @@ void cp_release_annotation(struct cypher_astnode_annotation *annotation)
     assert(annotation != NULL);
 
     cypher_ast_annotation_context_t *context = annotation->context;
+    const cypher_astnode_t *astnode = annotation->astnode;
 
     detach_annotation_from_astnode(annotation);
     detach_annotation_from_context(annotation);
     if (context->release_cb != NULL)
     {
         context->release_cb(context->release_cb_userdata,
-                annotation->astnode, annotation->data);
+                astnode, annotation->data);
     }
 
     free(annotation);
-- 
2.43.0


From 35337877edb5001f936cb65ac918eb60e0658b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 07/43] fix: find children other than the first when cloning

child_index never advanced, so cloning looped forever for any operand that is
not the first child.
---
 lib/src/astnode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/astnode.h b/lib/src/astnode.h
index 8337fc3..ff34130 100644
--- a/lib/src/astnode.h
+++ b/lib/src/astnode.h
@@ -127,7 +127,7 @@ static inline int child_index(const cypher_astnode_t *node,
 {
     unsigned int i = 0;
     while (i < node->nchildren && node->children[i] != child)
-        ;
+        ++i;
     assert(i < node->nchildren);
     return i;
 }
-- 
2.43.0


From b7b180489ce9d34419aa7452165edeeb27e6ea60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 08/43] fix: release the temporary child array after cloning a
 node

---
 lib/src/ast.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index 2d0b1e4..64dd6d9 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -558,6 +558,7 @@ cypher_astnode_t *cypher_ast_clone(const cypher_astnode_t *ast)
     {
         goto failure;
     }
+    free(children);
     return clone;
 
     int errsv;
-- 
2.43.0


From e5a971fcc10b4150892fc24e4fcbcb8d9774b280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:29 +0000
Subject: [PATCH 09/43] fix: clone optional operands when they are present

The test was inverted in several clone functions: a present operand was
dropped and an absent one looked up.
---
 lib/src/ast_none.c                  | 2 +-
 lib/src/ast_pattern_comprehension.c | 2 +-
 lib/src/ast_return.c                | 4 ++--
 lib/src/ast_start.c                 | 2 +-
 lib/src/ast_with.c                  | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/src/ast_none.c b/lib/src/ast_none.c
index 302343e..64cf2fd 100644
--- a/lib/src/ast_none.c
+++ b/lib/src/ast_none.c
@@ -99,7 +99,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
 
     cypher_astnode_t *identifier = children[child_index(self, node->identifier)];
     cypher_astnode_t *expression = children[child_index(self, node->expression)];
-    cypher_astnode_t *predicate = (node->predicate != NULL) ? NULL :
+    cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
 
     return cypher_ast_none(identifier, expression, predicate, children,
diff --git a/lib/src/ast_pattern_comprehension.c b/lib/src/ast_pattern_comprehension.c
index 6be9483..bbd389d 100644
--- a/lib/src/ast_pattern_comprehension.c
+++ b/lib/src/ast_pattern_comprehension.c
@@ -92,7 +92,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     cypher_astnode_t *identifier = (node->identifier == NULL) ? NULL :
             children[child_index(self, node->identifier)];
     cypher_astnode_t *pattern = children[child_index(self, node->pattern)];
-    cypher_astnode_t *predicate = (node->predicate != NULL) ? NULL :
+    cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
     cypher_astnode_t *eval = children[child_index(self, node->eval)];
 
diff --git a/lib/src/ast_return.c b/lib/src/ast_return.c
index b745ae1..48704ea 100644
--- a/lib/src/ast_return.c
+++ b/lib/src/ast_return.c
@@ -115,9 +115,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     }
     cypher_astnode_t *order_by = (node->order_by == NULL) ? NULL :
             children[child_index(self, node->order_by)];
-    cypher_astnode_t *skip = (node->skip != NULL) ? NULL :
+    cypher_astnode_t *skip = (node->skip == NULL) ? NULL :
             children[child_index(self, node->skip)];
-    cypher_astnode_t *limit = (node->limit != NULL) ? NULL :
+    cypher_astnode_t *limit = (node->limit == NULL) ? NULL :
             children[child_index(self, node->limit)];
 
     cypher_astnode_t *clone = cypher_ast_return(node->distinct,
diff --git a/lib/src/ast_start.c b/lib/src/ast_start.c
index 8b9b4d8..c15f4ae 100644
--- a/lib/src/ast_start.c
+++ b/lib/src/ast_start.c
@@ -98,7 +98,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     {
         points[i] = children[child_index(self, node->points[i])];
     }
-    cypher_astnode_t *predicate = (node->predicate != NULL) ? NULL :
+    cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
 
     cypher_astnode_t *clone = cypher_ast_start(points, node->npoints,
diff --git a/lib/src/ast_with.c b/lib/src/ast_with.c
index b02e959..573531a 100644
--- a/lib/src/ast_with.c
+++ b/lib/src/ast_with.c
@@ -117,9 +117,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     }
     cypher_astnode_t *order_by = (node->order_by == NULL) ? NULL :
             children[child_index(self, node->order_by)];
-    cypher_astnode_t *skip = (node->skip != NULL) ? NULL :
+    cypher_astnode_t *skip = (node->skip == NULL) ? NULL :
             children[child_index(self, node->skip)];
-    cypher_astnode_t *limit = (node->limit != NULL) ? NULL :
+    cypher_astnode_t *limit = (node->limit == NULL) ? NULL :
             children[child_index(self, node->limit)];
     cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
-- 
2.43.0


From 794d27afb4aad7f4e4ea666001c7a07ca44722ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:29 +0000
Subject: [PATCH 10/43] fix: clone both parts of every alternative of a case
 expression

---
 lib/src/ast_case.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/ast_case.c b/lib/src/ast_case.c
index d0fd659..28174ed 100644
--- a/lib/src/ast_case.c
+++ b/lib/src/ast_case.c
@@ -97,12 +97,12 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     cypher_astnode_t *expression = (node->expression == NULL) ? NULL :
             children[child_index(self, node->expression)];
     cypher_astnode_t **alternatives = calloc(node->nalternatives,
-            sizeof(cypher_astnode_t *));
+            2 * sizeof(cypher_astnode_t *));
     if (alternatives == NULL)
     {
         return NULL;
     }
-    for (unsigned int i = 0; i < node->nalternatives; ++i)
+    for (unsigned int i = 0; i < node->nalternatives * 2; ++i)
     {
         alternatives[i] = children[child_index(self, node->alternatives[i])];
     }
-- 
2.43.0


From 56042ea4f9d8283f895c3907db658e7a4730a30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:29 +0000
Subject: [PATCH 11/43] fix: clone both key and value of every map entry

---
 lib/src/ast_map.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/ast_map.c b/lib/src/ast_map.c
index 0a370af..4e9a23a 100644
--- a/lib/src/ast_map.c
+++ b/lib/src/ast_map.c
@@ -122,12 +122,12 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     struct map *node = container_of(self, struct map, _astnode);
 
     cypher_astnode_t **pairs = calloc(node->nentries,
-            sizeof(cypher_astnode_t *));
+            2 * sizeof(cypher_astnode_t *));
     if (pairs == NULL)
     {
         return NULL;
     }
-    for (unsigned int i = 0; i < node->nentries; ++i)
+    for (unsigned int i = 0; i < node->nentries * 2; ++i)
     {
         pairs[i] = children[child_index(self, node->pairs[i])];
     }
-- 
2.43.0


From 1506a0bef63106de7b785cad0203450c96656dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:29 +0000
Subject: [PATCH 12/43] fix: clone a dropped relationship constraint as such

---
 lib/src/ast_drop_rel_prop_constraint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/ast_drop_rel_prop_constraint.c b/lib/src/ast_drop_rel_prop_constraint.c
index e6763e7..caa3afd 100644
--- a/lib/src/ast_drop_rel_prop_constraint.c
+++ b/lib/src/ast_drop_rel_prop_constraint.c
@@ -86,7 +86,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     cypher_astnode_t *reltype = children[child_index(self, node->reltype)];
     cypher_astnode_t *expression = children[child_index(self, node->expression)];
 
-    return cypher_ast_drop_node_prop_constraint(identifier, reltype, expression,
+    return cypher_ast_drop_rel_prop_constraint(identifier, reltype, expression,
             node->unique, children, self->nchildren, self->range);
 }
 
-- 
2.43.0


From 7b938af90361c35d248e369997e19aed79af576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 13/43] fix: make comment nodes instances of CYPHER_AST_COMMENT

The abstract comment type was missing from the type table, so that no node was
ever an instance of it.
---
 lib/src/ast.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index 64dd6d9..fb1c01c 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -243,6 +243,7 @@ static const struct cypher_astnode_vts cypher_astnode_vts =
     .rel_pattern = &cypher_rel_pattern_astnode_vt,
     .range = &cypher_range_astnode_vt,
     .command = &cypher_command_astnode_vt,
+    .comment = &cypher_comment_astnode_vt,
     .line_comment = &cypher_line_comment_astnode_vt,
     .block_comment = &cypher_block_comment_astnode_vt,
     .error = &cypher_error_astnode_vt,
-- 
2.43.0


From 09d2c83a02d727e520204c5fc63f03f7d61cc6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 14/43] fix: validate list operands of constructors against the
 children

REQUIRE_CONTAINS_ALL started at the end of the list, so that no element was ever
checked to be one of the children given.
---
 lib/src/astnode.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/astnode.h b/lib/src/astnode.h
index ff34130..68295d2 100644
--- a/lib/src/astnode.h
+++ b/lib/src/astnode.h
@@ -96,9 +96,10 @@ ssize_t snprint_sequence(char *str, size_t size,
 #define REQUIRE_CONTAINS_ALL(collection, size, vals, nvals, res) \
     do { \
         REQUIRE(size >= nvals, res); \
-        unsigned int j = size; \
-        while (j < size) { \
+        unsigned int j = 0; \
+        while (j < nvals) { \
             REQUIRE_CONTAINS(collection, size, vals[j], res); \
+            ++j; \
         } \
     } while(0)
 
-- 
2.43.0


From cf4a995597743810a44f7cdc2b998e89b7a7b12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 15/43] fix: validate the predicate given to cypher_ast_with

---
 lib/src/ast_with.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/ast_with.c b/lib/src/ast_with.c
index 573531a..310a24c 100644
--- a/lib/src/ast_with.c
+++ b/lib/src/ast_with.c
@@ -67,6 +67,8 @@ cypher_astnode_t *cypher_ast_with(bool distinct, bool include_existing,
             CYPHER_AST_EXPRESSION, NULL);
     REQUIRE_CHILD_OPTIONAL(children, nchildren, limit,
             CYPHER_AST_EXPRESSION, NULL);
+    REQUIRE_CHILD_OPTIONAL(children, nchildren, predicate,
+            CYPHER_AST_EXPRESSION, NULL);
 
     struct with_clause *node = calloc(1, sizeof(struct with_clause) +
             nprojections * sizeof(cypher_astnode_t *));
-- 
2.43.0


From bd117d65d7131e77212a999d077b3998e7c0c9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 16/43] fix: validate the selectors given to
 cypher_ast_map_projection

---
 lib/src/ast_map_projection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/ast_map_projection.c b/lib/src/ast_map_projection.c
index 2af4e32..aaa6fa0 100644
--- a/lib/src/ast_map_projection.c
+++ b/lib/src/ast_map_projection.c
@@ -54,6 +54,8 @@ cypher_astnode_t *cypher_ast_map_projection(
         struct cypher_input_range range)
 {
     REQUIRE_CHILD(children, nchildren, expression, CYPHER_AST_EXPRESSION, NULL);
+    REQUIRE_CHILD_ALL(children, nchildren, selectors, nselectors,
+            CYPHER_AST_MAP_PROJECTION_SELECTOR, NULL);
 
     struct map_projection *node = calloc(1, sizeof(struct map_projection) +
             nselectors * sizeof(cypher_astnode_t *));
-- 
2.43.0


From 49076aaabb51408c79f9aea0b7947d850a62413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 17/43] fix: validate both parts of the alternatives given to
 cypher_ast_case

---
 lib/src/ast_case.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/ast_case.c b/lib/src/ast_case.c
index 28174ed..87f7755 100644
--- a/lib/src/ast_case.c
+++ b/lib/src/ast_case.c
@@ -55,7 +55,7 @@ cypher_astnode_t *cypher_ast_case(const cypher_astnode_t *expression,
 {
     REQUIRE_CHILD_OPTIONAL(children, nchildren, expression,
             CYPHER_AST_EXPRESSION, NULL);
-    REQUIRE_CHILD_ALL(children, nchildren, alternatives, nalternatives,
+    REQUIRE_CHILD_ALL(children, nchildren, alternatives, nalternatives * 2,
             CYPHER_AST_EXPRESSION, NULL);
     REQUIRE_CHILD_OPTIONAL(children, nchildren, deflt,
             CYPHER_AST_EXPRESSION, NULL);
-- 
2.43.0


From 3cba1db0efc5ab3616b59811a43787e6b20ed41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 18/43] fix: validate that map entries are among the children

---
 lib/src/ast_map.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/src/ast_map.c b/lib/src/ast_map.c
index 4e9a23a..88b780e 100644
--- a/lib/src/ast_map.c
+++ b/lib/src/ast_map.c
@@ -77,8 +77,10 @@ cypher_astnode_t *cypher_ast_map(cypher_astnode_t * const *keys,
         cypher_astnode_t **children, unsigned int nchildren,
         struct cypher_input_range range)
 {
-    REQUIRE_TYPE_ALL(keys, nentries, CYPHER_AST_PROP_NAME, NULL);
-    REQUIRE_TYPE_ALL(values, nentries, CYPHER_AST_EXPRESSION, NULL);
+    REQUIRE_CHILD_ALL(children, nchildren, keys, nentries,
+            CYPHER_AST_PROP_NAME, NULL);
+    REQUIRE_CHILD_ALL(children, nchildren, values, nentries,
+            CYPHER_AST_EXPRESSION, NULL);
 
     struct map *node = map_init(nentries, children, nchildren, range);
     if (node == NULL)
@@ -101,8 +103,10 @@ cypher_astnode_t *cypher_ast_pair_map(cypher_astnode_t * const *pairs,
 {
     for (unsigned int i = 0; i < nentries; ++i)
     {
-        REQUIRE_TYPE(pairs[i*2], CYPHER_AST_PROP_NAME, NULL);
-        REQUIRE_TYPE(pairs[i*2 + 1], CYPHER_AST_EXPRESSION, NULL);
+        const cypher_astnode_t *key = pairs[i*2];
+        const cypher_astnode_t *value = pairs[i*2 + 1];
+        REQUIRE_CHILD(children, nchildren, key, CYPHER_AST_PROP_NAME, NULL);
+        REQUIRE_CHILD(children, nchildren, value, CYPHER_AST_EXPRESSION, NULL);
     }
 
     struct map *node = map_init(nentries, children, nchildren, range);
-- 
2.43.0


From c82ef07beb8c5334eb3e5c6234cede2aeacf6a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 19/43] fix: validate each element given to
 cypher_ast_pattern_path

---
 lib/src/ast_pattern_path.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/ast_pattern_path.c b/lib/src/ast_pattern_path.c
index b97608c..67827ac 100644
--- a/lib/src/ast_pattern_path.c
+++ b/lib/src/ast_pattern_path.c
@@ -76,7 +76,9 @@ cypher_astnode_t *cypher_ast_pattern_path(cypher_astnode_t * const *elements,
     REQUIRE(elements != NULL, NULL);
     for (unsigned int i = 0; i < nelements; ++i)
     {
-        REQUIRE_CHILD(children, nchildren, elements[i],
+        // REQUIRE_CHILD uses an index of its own, named `i`
+        const cypher_astnode_t *element = elements[i];
+        REQUIRE_CHILD(children, nchildren, element,
                 (i%2 == 0)? CYPHER_AST_NODE_PATTERN : CYPHER_AST_REL_PATTERN,
                 NULL);
     }
-- 
2.43.0


From 74d7114618c58be3884936b0cb4123759eb18be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:10 +0000
Subject: [PATCH 20/43] fix: accept comments within dotted function and
 procedure names

The comments became children of the block of a terminal node, failing an
assertion (and were dropped when assertions are disabled).
---
 lib/src/parser.leg | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index b9f14da..490d647 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -679,11 +679,11 @@ prop-name = <                          { strbuf_reset(); }
     >                                  { $$ = strbuf_prop_name(); }
     -
 
-function-name = <                      { strbuf_reset(); }
+function-name = _block_start_          { strbuf_reset(); }
     ( (symbolic-name - DOT -           { strbuf_append(".", 1); }
       )* symbolic-name
     ) ~{ERR("a function name")}
-    >                                  { $$ = strbuf_function_name(); }
+    _block_merge_                      { $$ = strbuf_function_name(); }
     -
 
 index-name = <                         { strbuf_reset(); }
@@ -691,11 +691,11 @@ index-name = <                         { strbuf_reset(); }
     >                                  { $$ = strbuf_index_name(); }
     -
 
-proc-name = <                          { strbuf_reset(); }
+proc-name = _block_start_              { strbuf_reset(); }
     ( (symbolic-name - DOT -           { strbuf_append(".", 1); }
       )* symbolic-name
     ) ~{ERR("a procedure name")}
-    >                                  { $$ = strbuf_proc_name(); }
+    _block_merge_                      { $$ = strbuf_proc_name(); }
     -
 
 
-- 
2.43.0


From 369961accdd024240d980a6ac3d85eb1b1d31c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 21/43] fix: accept whitespace and comments before a comma in a
 pattern

---
 lib/src/parser.leg | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index 490d647..5862b53 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -705,7 +705,8 @@ proc-name = _block_start_              { strbuf_reset(); }
 
 pattern =
     < p:pattern-part                   { sequence_add(p); }
-    ( COMMA - p:pattern-part           { sequence_add(p); }
+    ( ( COMMA | - ',' ) - p:pattern-part
+                                       { sequence_add(p); }
     )* >                               { $$ = pattern(); }
     -
 
-- 
2.43.0


From ece003be9d7d37c6886ccfab5655d84efff6eced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 22/43] fix: count the lines within quoted names

---
 lib/src/parser.leg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index 5862b53..5829de4 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -858,7 +858,7 @@ symbolic-name =
     | escaped-symbolic-name
 unescaped-symbolic-name = < sym-start sym-part* >
                                        { strbuf_append_block(); }
-escaped-symbolic-name = '`' < (!'`' .)* > '`' ~{ERR("`")}
+escaped-symbolic-name = '`' < (EOL | !'`' .)* > '`' ~{ERR("`")}
                                        { strbuf_append_block(); }
 
 parameter-name =
-- 
2.43.0


From 55787b5eb6bf4badd62beb710a67e48edae26638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 23/43] fix: recognise back-quoted names when splitting
 statements

A name such as `a;b` or `it's` ended, or extended, the statement.
---
 lib/src/quick_parser.leg | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/quick_parser.leg b/lib/src/quick_parser.leg
index ab9570c..06b1a16 100644
--- a/lib/src/quick_parser.leg
+++ b/lib/src/quick_parser.leg
@@ -33,6 +33,7 @@ statement = - < statement-body > - ( ';' | EOF )
 statement-body =
     ( comment
     | quoted
+    | back-quoted
     | unclosed-block-comment
     | escaped-char
     | !(- ';') .
@@ -41,6 +42,7 @@ statement-body =
 quoted = single-quoted | double-quoted
 single-quoted = "'" (escaped-char | EOL | !"'" .)* ("'" | EOF)
 double-quoted = '"' (escaped-char | EOL | !'"' .)* ('"' | EOF)
+back-quoted = '`' (EOL | !'`' .)* ('`' | EOF)
 
 escaped-char = '\\' [abfnrtv"'?\\]
 
-- 
2.43.0


From 444dce0857cd83491633f8cb090f540e1f1fc27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 24/43] fix: do not resume within quoted text or comments after
 an error

---
 lib/src/parser.leg | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index 5829de4..5671b11 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -1063,32 +1063,32 @@ WB = &(EOF | !sym-part .)
 # Error recovery
 #----------------------------------------------------
 
-# remove one char of input, then as much as necessary to reach a sync point
-skip-to-directive = < . (!(
+# remove one part of the input, then as much as necessary to reach a sync point
+skip-to-directive = < skip-part (!(
       EOF
     | SEMICOLON
     | (WS | comment) resync-directive
-    ) .)* >                            { $$ = skip(); }
+    ) skip-part)* >                    { $$ = skip(); }
 resync-directive =
       resync-statement
     | COLON
 
-skip-to-statement = < . (!(
+skip-to-statement = < skip-part (!(
       EOF
     | SEMICOLON
     | (WS | comment) resync-statement
-    ) .)* >                            { $$ = skip(); }
+    ) skip-part)* >                    { $$ = skip(); }
 resync-statement =
       resync-clause
     | CYPHER
     | PROFILE
     | EXPLAIN
 
-skip-to-clause = < . (!(
+skip-to-clause = < skip-part (!(
       EOF
     | SEMICOLON
     | (WS | comment) resync-clause
-    ) .)* >                            { $$ = skip(); }
+    ) skip-part)* >                    { $$ = skip(); }
 resync-clause =
       LOADCSV
     | START
@@ -1105,6 +1105,17 @@ resync-clause =
     | RETURN
     | DROP
 
+# quoted text and comments may contain anything, including what would otherwise
+# be a sync point
+skip-part =
+      "'" (skip-escaped | EOL | !"'" .)* ("'" | !.)
+    | '"' (skip-escaped | EOL | !'"' .)* ('"' | !.)
+    | '`' (EOL | !'`' .)* ('`' | !.)
+    | '//' (!EOL .)*
+    | '/*' (EOL | !'*/' .)* ('*/' | !.)
+    | .
+skip-escaped = '\\' ['"\\]
+
 
 #----------------------------------------------------
 # Processing directives
-- 
2.43.0


From 30d3e01b304e4b79728caea0e98f2c9cb1cb7528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 25/43] fix: leave trailing comments and whitespace out of
 quick parser segments

---
 lib/src/quick_parser.leg | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/lib/src/quick_parser.leg b/lib/src/quick_parser.leg
index 06b1a16..5797328 100644
--- a/lib/src/quick_parser.leg
+++ b/lib/src/quick_parser.leg
@@ -19,24 +19,28 @@ directive = (client-command | statement)
 client-command = - < ':' command-body > -- (';' | line-end)
                                        { segment(false, yy); }
 command-body =
-    ( escaped-char
-    | '\\;'
-    | '\\' -- line-end
-    | block-comment
-    | unclosed-block-comment
-    | quoted
-    | !(';' | -- line-end) .
+    ( !(-- (';' | line-end))
+      ( escaped-char
+      | '\\;'
+      | '\\' -- line-end
+      | block-comment
+      | unclosed-block-comment
+      | quoted
+      | .
+      )
     )*
 
 statement = - < statement-body > - ( ';' | EOF )
                                        { segment(true, yy); }
 statement-body =
-    ( comment
-    | quoted
-    | back-quoted
-    | unclosed-block-comment
-    | escaped-char
-    | !(- ';') .
+    ( !(- (';' | EOF))
+      ( comment
+      | quoted
+      | back-quoted
+      | unclosed-block-comment
+      | escaped-char
+      | .
+      )
     )*
 
 quoted = single-quoted | double-quoted
-- 
2.43.0


From f670ee972056576d9e1584e828e8d43c3349f46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:24 +0000
Subject: [PATCH 26/43] fix: distinguish a NUL byte from the end of input in
 errors

---
 lib/src/errors.c | 10 ++++++----
 lib/src/errors.h |  4 ++--
 lib/src/parser.c |  2 +-
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/lib/src/errors.c b/lib/src/errors.c
index ab061c9..7617ba2 100644
--- a/lib/src/errors.c
+++ b/lib/src/errors.c
@@ -18,6 +18,7 @@
 #include "errors.h"
 #include "util.h"
 #include <assert.h>
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -25,7 +26,7 @@
 #define CYPHER_ERROR_LABELS_BLOCK_SIZE 8
 #define CYPHER_PARSER_ERRORS_BLOCK_SIZE 8
 
-static char *chardesc(char *buf, size_t size, char c);
+static char *chardesc(char *buf, size_t size, int c);
 static char *error_report(cp_error_tracking_t *et, char **buffer, size_t *cap,
         const char *prefix_format, ...) __cypherlang_format(4, 5);
 
@@ -74,7 +75,7 @@ void cp_et_init(cp_error_tracking_t *et,
 
 
 int cp_et_note_potential_error(cp_error_tracking_t *et,
-        struct cypher_input_position position, char c, const char *label)
+        struct cypher_input_position position, int c, const char *label)
 {
     if (position.offset < et->last_position.offset || 
             (et->nerrors > 0 && position.offset <= et->last_error_offset))
@@ -177,7 +178,7 @@ int cp_et_reify_potentials(cp_error_tracking_t *et)
 }
 
 
-char *chardesc(char *buf, size_t size, char c)
+char *chardesc(char *buf, size_t size, int c)
 {
     assert(size >= 4);
     switch (c)
@@ -190,7 +191,8 @@ char *chardesc(char *buf, size_t size, char c)
     case '\t': return "'\\t'";
     case '\v': return "'\\v'";
     case '\'': return "'\\''";
-    case '\0': return "at end of input";
+    case '\0': return "'\\0'";
+    case EOF: return "at end of input";
     default:
         buf[0] = '\'';
         buf[1] = c;
diff --git a/lib/src/errors.h b/lib/src/errors.h
index a08b697..799bc76 100644
--- a/lib/src/errors.h
+++ b/lib/src/errors.h
@@ -38,7 +38,7 @@ struct cp_error_tracking
     const struct cypher_parser_colorization *colorization;
 
     struct cypher_input_position last_position;
-    char last_char;
+    int last_char; // EOF at the end of input
     const char **labels;
     unsigned int labels_capacity;
     unsigned int nlabels;
@@ -54,7 +54,7 @@ void cp_et_init(cp_error_tracking_t *et,
         const struct cypher_parser_colorization *colorization);
 
 int cp_et_note_potential_error(cp_error_tracking_t *et,
-        struct cypher_input_position position, char c, const char *label);
+        struct cypher_input_position position, int c, const char *label);
 
 int cp_et_reify_potentials(cp_error_tracking_t *et);
 
diff --git a/lib/src/parser.c b/lib/src/parser.c
index e6cb8b2..71eeac5 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -1020,7 +1020,7 @@ void _err(yycontext *yy, const char *label)
     backtrack_lines(yy, pos);
 
     struct cypher_input_position position = input_position(yy, pos);
-    char c = (yy->__pos < yy->__limit)? yy->__buf[pos] : '\0';
+    int c = (yy->__pos < yy->__limit)? (unsigned char)yy->__buf[pos] : EOF;
     if (cp_et_note_potential_error(&(yy->error_tracking), position, c, label))
     {
         abort_parse(yy);
-- 
2.43.0


From ebb0643ef46992fa9ed48586854830f82da56a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:35 +0000
Subject: [PATCH 27/43] fix: do not release the top block twice when a parse is
 aborted

---
 lib/src/parser.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 71eeac5..14271ea 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -687,7 +687,11 @@ int parse_each(yyrule rule, source_cb_t source, void *sourcedata,
 cleanup:
     errsv = errno;
     offsets_cleanup(&(yy.line_start_offsets));
-    block_free(top_block);
+    struct block *block;
+    while ((block = blocks_pop(&(yy.blocks))) != NULL)
+    {
+        block_free(block);
+    }
     blocks_cleanup(&(yy.blocks));
     operators_cleanup(&(yy.operators));
     precedences_cleanup(&(yy.precedences));
-- 
2.43.0


From 0cb54bd11fa43e7db399d494e4ea13e859e6bf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:35 +0000
Subject: [PATCH 28/43] fix: do not free a node twice when extending a sequence
 fails

---
 lib/src/parser.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 14271ea..7d08939 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -1064,11 +1064,9 @@ void _sequence_add(yycontext *yy, cypher_astnode_t *node)
 {
     struct block *block = blocks_last(&(yy->blocks));
     assert(block != NULL);
+    // node is also a child of the block, which remains its owner
     if (astnodes_push(&(block->sequence), node))
     {
-        int errsv = errno;
-        cypher_ast_free(node);
-        errno = errsv;
         abort_parse(yy);
     }
 }
-- 
2.43.0


From 979686cd4e4020cd35485787b5b5efa35b78f967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:35 +0000
Subject: [PATCH 29/43] fix: leave children with one owner when merging blocks
 fails

---
 lib/src/parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 7d08939..fe4276b 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -978,6 +978,8 @@ void block_merge_action(yycontext *yy, char *text, int pos)
         {
             if (astnodes_push(&(pblock->children), astnodes_get(&(block->children), i)))
             {
+                // the children are still owned by the closed block
+                astnodes_npop(&(pblock->children), i);
                 abort_parse(yy);
             }
         }
-- 
2.43.0


From ae3a954a955ed030394efba47ea6ee7b26384c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:35 +0000
Subject: [PATCH 30/43] fix: report a failure to read from the stream

---
 lib/src/parser.c       | 6 +++++-
 lib/src/quick_parser.c | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index fe4276b..afe3a12 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -111,7 +111,7 @@ static int source_from_stream(void *data, char *buf, int n)
     int c = getc(stream);
     if (c == EOF)
     {
-        return 0;
+        return ferror(stream)? -1 : 0;
     }
     *buf = c;
     return 1;
@@ -537,6 +537,10 @@ void source(yycontext *yy, char *buf, int *result, int max_size)
     }
     assert(yy != NULL && yy->source != NULL);
     *result = yy->source(yy->source_data, buf, max_size);
+    if (*result < 0)
+    {
+        abort_parse(yy);
+    }
 }
 
 
diff --git a/lib/src/quick_parser.c b/lib/src/quick_parser.c
index a19077d..f63050d 100644
--- a/lib/src/quick_parser.c
+++ b/lib/src/quick_parser.c
@@ -62,7 +62,7 @@ static int source_from_stream(void *data, char *buf, int n)
     int c = getc(stream);
     if (c == EOF)
     {
-        return 0;
+        return ferror(stream)? -1 : 0;
     }
     *buf = c;
     return 1;
@@ -132,6 +132,10 @@ void source(yycontext *yy, char *buf, int *result, int max_size)
     }
     assert(yy != NULL && yy->source != NULL);
     *result = yy->source(yy->source_data, buf, max_size);
+    if (*result < 0)
+    {
+        abort_parse(yy);
+    }
 }
 
 
-- 
2.43.0


From 6787663f15bed0b65d102287f51aa5b1ca245941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 31/43] fix: release the child array when a constructor fails

---
 lib/src/ast_call.c       | 1 +
 lib/src/ast_comparison.c | 1 +
 lib/src/ast_query.c      | 1 +
 3 files changed, 3 insertions(+)

diff --git a/lib/src/ast_call.c b/lib/src/ast_call.c
index 944e60c..92ad796 100644
--- a/lib/src/ast_call.c
+++ b/lib/src/ast_call.c
@@ -94,6 +94,7 @@ cypher_astnode_t *cypher_ast_call(const cypher_astnode_t *proc_name,
     int errsv;
 cleanup:
     errsv = errno;
+    free(node->_astnode.children);
     free(node);
     errno = errsv;
     return NULL;
diff --git a/lib/src/ast_comparison.c b/lib/src/ast_comparison.c
index 1ee11a0..3143105 100644
--- a/lib/src/ast_comparison.c
+++ b/lib/src/ast_comparison.c
@@ -83,6 +83,7 @@ cypher_astnode_t *cypher_ast_comparison(unsigned int length,
 cleanup:
     errsv = errno;
     free(node->ops);
+    free(node->_astnode.children);
     free(node);
     errno = errsv;
     return NULL;
diff --git a/lib/src/ast_query.c b/lib/src/ast_query.c
index 8bc9e88..fedaa79 100644
--- a/lib/src/ast_query.c
+++ b/lib/src/ast_query.c
@@ -81,6 +81,7 @@ cypher_astnode_t *cypher_ast_query(cypher_astnode_t * const *options,
     int errsv;
 cleanup:
     errsv = errno;
+    free(node->_astnode.children);
     free(node);
     errno = errsv;
     return NULL;
-- 
2.43.0


From 7e87c272306bcf1b23bf43c8808d578dc5a0b1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 32/43] fix: release the first operand list when cloning the
 second fails

---
 lib/src/ast_call.c  | 3 +++
 lib/src/ast_query.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lib/src/ast_call.c b/lib/src/ast_call.c
index 92ad796..8fdc330 100644
--- a/lib/src/ast_call.c
+++ b/lib/src/ast_call.c
@@ -129,6 +129,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
             calloc(node->nprojections, sizeof(cypher_astnode_t *));
     if (projections == NULL)
     {
+        int errsv = errno;
+        free(args);
+        errno = errsv;
         return NULL;
     }
     for (unsigned int i = 0; i < node->nprojections; ++i)
diff --git a/lib/src/ast_query.c b/lib/src/ast_query.c
index fedaa79..3d325b2 100644
--- a/lib/src/ast_query.c
+++ b/lib/src/ast_query.c
@@ -108,6 +108,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
             calloc(node->nclauses, sizeof(cypher_astnode_t *));
     if (clauses == NULL)
     {
+        int errsv = errno;
+        free(options);
+        errno = errsv;
         return NULL;
     }
     for (unsigned int i = 0; i < node->nclauses; ++i)
-- 
2.43.0


From 936847bc9abaaa4f463fd871eac8c3db97459ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:29 +0000
Subject: [PATCH 33/43] fix: end an option value at the end of the statement

---
 lib/src/parser.leg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index 5671b11..cc5d78f 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -71,7 +71,7 @@ cypher-version = <
 cypher-param = < n:cypher-param-name - EQUAL - v:cypher-param-val >
                                        { $$ = cypher_option_param(n, v); }
 cypher-param-name = < [a-zA-Z0-9_]+ >  { $$ = block_string(); }
-cypher-param-val = < (!WS .)+ >        { $$ = block_string(); }
+cypher-param-val = < (!(WS | ';') .)+ > { $$ = block_string(); }
 
 profile-option = < PROFILE >           { $$ = profile_option(); }
 explain-option = < EXPLAIN >           { $$ = explain_option(); }
-- 
2.43.0


From 993ed8ec1db2094943ed9af2db90d6a17d61b580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:44 +0000
Subject: [PATCH 34/43] fix: forget how far an earlier statement was tried when
 tracking errors

---
 lib/src/errors.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/errors.h b/lib/src/errors.h
index 799bc76..6c622d9 100644
--- a/lib/src/errors.h
+++ b/lib/src/errors.h
@@ -60,6 +60,9 @@ int cp_et_reify_potentials(cp_error_tracking_t *et);
 
 static inline void cp_et_clear_potentials(cp_error_tracking_t *et)
 {
+    et->last_position.line = 0;
+    et->last_position.column = 0;
+    et->last_position.offset = 0;
     et->nlabels = 0;
 }
 
-- 
2.43.0


From de0afd1aade3c7758b2010d29ff8ffbb14cdfac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:04 +0000
Subject: [PATCH 35/43] fix: parse each nested expression once

An expression without operators was parsed twice, as was one within a
slice, so the time taken doubled with every level of nesting.
---
 lib/src/parser.leg | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index cc5d78f..5d70a37 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -430,12 +430,17 @@ _expression =
         | POSTFIX-OP &{PREC_CHK()} _block_replace_
                                        { l = unary_operator(op_pop(), l); }
         | LEFT-SQ-PAREN &{OP(SUBSCRIPT)} &{PREC_CHK()} -
-          r:expression RIGHT-SQ-PAREN - _block_replace_
-                                       { l = subscript_operator(l, r); }
-        | LEFT-SQ-PAREN &{OP(SUBSCRIPT)} &{PREC_CHK()} -
-          (s:expression | s:_null_) ELLIPSIS - (e:expression | e:_null_)
-          RIGHT-SQ-PAREN - _block_replace_
+          ( s:expression
+            ( RIGHT-SQ-PAREN - _block_replace_
+                                       { l = subscript_operator(l, s); }
+            | ELLIPSIS - (e:expression | e:_null_)
+              RIGHT-SQ-PAREN - _block_replace_
                                        { l = slice_operator(l, s, e); }
+            )
+          | ELLIPSIS - (e:expression | e:_null_)
+            RIGHT-SQ-PAREN - _block_replace_
+                                       { l = slice_operator(l, NULL, e); }
+          )
         | LEFT-CURLY &{OP(MAP_PROJECTION)} &{PREC_CHK()} -
           ( m:map_projection_element   { sequence_add(m); }
             ( COMMA - m:map_projection_element
@@ -446,8 +451,7 @@ _expression =
         | ( &{OP(LABEL)} &{PREC_CHK()} n:label
                                        { sequence_add(n); }
           )+ _block_replace_           { l = labels_operator(l); }
-        )+ _block_merge_               { $$ = l; }
-    | _atom
+        )* _block_merge_               { $$ = l; }
 _atom =
       _block_start_ PREFIX-OP - r:_prec_expression _block_end_
                                        { $$ = unary_operator(op_pop(), r); }
-- 
2.43.0


From 26008a62a55fc338b9cfb763932a6e5a5fa1a6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:04 +0000
Subject: [PATCH 36/43] fix: print large node numbers as such

Some details printed node numbers as signed integers.
---
 lib/src/ast_create.c        | 2 +-
 lib/src/ast_match.c         | 2 +-
 lib/src/ast_merge.c         | 2 +-
 lib/src/ast_named_path.c    | 2 +-
 lib/src/ast_shortest_path.c | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/ast_create.c b/lib/src/ast_create.c
index 391bdb7..d46bf26 100644
--- a/lib/src/ast_create.c
+++ b/lib/src/ast_create.c
@@ -102,6 +102,6 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
 {
     REQUIRE_TYPE(self, CYPHER_AST_CREATE, -1);
     struct create *node = container_of(self, struct create, _astnode);
-    return snprintf(str, size, "%spattern=@%d", node->unique? "UNIQUE, " : "",
+    return snprintf(str, size, "%spattern=@%u", node->unique? "UNIQUE, " : "",
             node->pattern->ordinal);
 }
diff --git a/lib/src/ast_match.c b/lib/src/ast_match.c
index 8d3f6e6..75d6d46 100644
--- a/lib/src/ast_match.c
+++ b/lib/src/ast_match.c
@@ -170,7 +170,7 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
     struct match *node = container_of(self, struct match, _astnode);
 
     size_t n = 0;
-    ssize_t r = snprintf(str, size, "%spattern=@%d",
+    ssize_t r = snprintf(str, size, "%spattern=@%u",
             node->optional? "OPTIONAL, " : "", node->pattern->ordinal);
     if (r < 0)
     {
diff --git a/lib/src/ast_merge.c b/lib/src/ast_merge.c
index 668be11..d003c80 100644
--- a/lib/src/ast_merge.c
+++ b/lib/src/ast_merge.c
@@ -143,7 +143,7 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
     struct merge *node = container_of(self, struct merge, _astnode);
 
     size_t n = 0;
-    ssize_t r = snprintf(str, size, "path=@%d", node->path->ordinal);
+    ssize_t r = snprintf(str, size, "path=@%u", node->path->ordinal);
     if (r < 0)
     {
         return -1;
diff --git a/lib/src/ast_named_path.c b/lib/src/ast_named_path.c
index b2b63ee..85ca8b2 100644
--- a/lib/src/ast_named_path.c
+++ b/lib/src/ast_named_path.c
@@ -141,6 +141,6 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
             container_of(self, cypher_pattern_path_astnode_t, _astnode);
     struct named_path *node =
             container_of(ppnode, struct named_path, _pattern_path_astnode);
-    return snprintf(str, size, "@%d = @%d", node->identifier->ordinal,
+    return snprintf(str, size, "@%u = @%u", node->identifier->ordinal,
             node->path->ordinal);
 }
diff --git a/lib/src/ast_shortest_path.c b/lib/src/ast_shortest_path.c
index 04c1d37..f64e0a0 100644
--- a/lib/src/ast_shortest_path.c
+++ b/lib/src/ast_shortest_path.c
@@ -138,7 +138,7 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
             container_of(self, cypher_pattern_path_astnode_t, _astnode);
     struct shortest_path *node =
             container_of(ppnode, struct shortest_path, _pattern_path_astnode);
-    return snprintf(str, size, "single=%s, path=@%d",
+    return snprintf(str, size, "single=%s, path=@%u",
             node->single? "true" : "false",
             node->path->ordinal);
 }
-- 
2.43.0


From 9e2f355aa4c559188faf34accf709c0a54a188ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 37/43] fix: NOT was accepted between two operands

---
 lib/src/parser.leg | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index 5d70a37..fb9ea69 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -513,7 +513,6 @@ INFIX-OP =
     ( AND &{OP(AND)}                   { op_push(AND); }
     | OR &{OP(OR)}                     { op_push(OR); }
     | XOR &{OP(XOR)}                   { op_push(XOR); }
-    | NOT &{OP(NOT)}                   { op_push(NOT); }
     | REGEX &{OP(REGEX)}               { op_push(REGEX); }
     | EQUAL &{OP(EQUAL)}               { op_push(EQUAL); }
     | NEQUAL &{OP(NEQUAL)}             { op_push(NEQUAL); }
-- 
2.43.0


From 8f4679daf859fe6861e0e0a30baa375da0b5bcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 38/43] fix: an escaped semicolon ended a malformed command

Recovery from an error in a client command treated an escaped semicolon as
its end and a backtick as a quote, so that the rest of the command was read
as another statement, and the error could be placed beyond the part of the
input it was reported with.
---
 lib/src/parser.leg | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index fb9ea69..69e6188 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -1067,11 +1067,19 @@ WB = &(EOF | !sym-part .)
 #----------------------------------------------------
 
 # remove one part of the input, then as much as necessary to reach a sync point
-skip-to-directive = < skip-part (!(
+skip-to-directive =
+    < ( ':' skip-command-parts | skip-part skip-directive-parts )
+    >                                  { $$ = skip(); }
+skip-command-parts = (!(
       EOF
     | SEMICOLON
     | (WS | comment) resync-directive
-    ) skip-part)* >                    { $$ = skip(); }
+    ) ('\\' [;'"\\] | '`' | skip-part))*
+skip-directive-parts = (!(
+      EOF
+    | SEMICOLON
+    | (WS | comment) resync-directive
+    ) skip-part)*
 resync-directive =
       resync-statement
     | COLON
-- 
2.43.0


From c58e65652426f17364bb68256afd84df54fd402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:50 +0000
Subject: [PATCH 39/43] fix: the expectation of 'relationship' in error
 messages was misspelt

---
 lib/src/parser.leg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index 69e6188..7f8c2fd 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -1002,7 +1002,7 @@ UNION = [Uu]([Nn][Ii][Oo][Nn] WB -) ~{ERR("UNION")}
 
 node = ([Nn][Oo][Dd][Ee] WB -) ~{ERR("node")}
 relationship = ([Rr][Ee][Ll][Aa][Tt][Ii][Oo][Nn][Ss][Hh][Ii][Pp] WB -)
-    ~{ERR("relatioinship")}
+    ~{ERR("relationship")}
 rel = ([Rr][Ee][Ll] WB -) ~{ERR("rel")}
 
 USING-INDEX = ([Uu][Ss][Ii][Nn][Gg] WB - [Ii][Nn][Dd][Ee][Xx] WB -)
-- 
2.43.0


From 3025f25e85b80e0dd534a2c800fdede7e8c2a9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:03 +0000
Subject: [PATCH 40/43] fix: pass over each run of blanks and comments once
 when quick parsing

---
 lib/src/quick_parser.leg | 42 ++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/lib/src/quick_parser.leg b/lib/src/quick_parser.leg
index 5797328..a5477f8 100644
--- a/lib/src/quick_parser.leg
+++ b/lib/src/quick_parser.leg
@@ -18,30 +18,30 @@ directive = (client-command | statement)
 
 client-command = - < ':' command-body > -- (';' | line-end)
                                        { segment(false, yy); }
-command-body =
-    ( !(-- (';' | line-end))
-      ( escaped-char
-      | '\\;'
-      | '\\' -- line-end
-      | block-comment
-      | unclosed-block-comment
-      | quoted
-      | .
-      )
-    )*
+# each run of whitespace and comments is passed over just once, whether or not
+# it is the last
+command-body = command-part* (-- command-part+)*
+command-part =
+    !(HWS | block-comment | ';' | line-end)
+    ( escaped-char
+    | '\\;'
+    | '\\' -- line-end
+    | unclosed-block-comment
+    | quoted
+    | .
+    )
 
 statement = - < statement-body > - ( ';' | EOF )
                                        { segment(true, yy); }
-statement-body =
-    ( !(- (';' | EOF))
-      ( comment
-      | quoted
-      | back-quoted
-      | unclosed-block-comment
-      | escaped-char
-      | .
-      )
-    )*
+statement-body = statement-part* (- statement-part+)*
+statement-part =
+    !(WS | comment | ';')
+    ( quoted
+    | back-quoted
+    | unclosed-block-comment
+    | escaped-char
+    | .
+    )
 
 quoted = single-quoted | double-quoted
 single-quoted = "'" (escaped-char | EOL | !"'" .)* ("'" | EOF)
-- 
2.43.0


From 6d582cf977729cf8bc7e9ab43cc26a2033b012fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:11 +0000
Subject: [PATCH 41/43] fix: do not take an earlier error on the stream for a
 failure to read

---
 lib/src/parser.c       | 2 +-
 lib/src/quick_parser.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index afe3a12..b73b967 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -111,7 +111,7 @@ static int source_from_stream(void *data, char *buf, int n)
     int c = getc(stream);
     if (c == EOF)
     {
-        return ferror(stream)? -1 : 0;
+        return feof(stream)? 0 : -1;
     }
     *buf = c;
     return 1;
diff --git a/lib/src/quick_parser.c b/lib/src/quick_parser.c
index f63050d..ebda64f 100644
--- a/lib/src/quick_parser.c
+++ b/lib/src/quick_parser.c
@@ -62,7 +62,7 @@ static int source_from_stream(void *data, char *buf, int n)
     int c = getc(stream);
     if (c == EOF)
     {
-        return ferror(stream)? -1 : 0;
+        return feof(stream)? 0 : -1;
     }
     *buf = c;
     return 1;
-- 
2.43.0


From 5510afafedffa0e0037197996f8f094bdbdddd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:11 +0000
Subject: [PATCH 42/43] fix: set errno when a stream fails without doing so

---
 lib/src/parser.c       | 10 +++++++++-
 lib/src/quick_parser.c | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index b73b967..0bcad5a 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -111,7 +111,15 @@ static int source_from_stream(void *data, char *buf, int n)
     int c = getc(stream);
     if (c == EOF)
     {
-        return feof(stream)? 0 : -1;
+        if (feof(stream))
+        {
+            return 0;
+        }
+        if (errno == 0)
+        {
+            errno = EIO;
+        }
+        return -1;
     }
     *buf = c;
     return 1;
diff --git a/lib/src/quick_parser.c b/lib/src/quick_parser.c
index ebda64f..b58fadf 100644
--- a/lib/src/quick_parser.c
+++ b/lib/src/quick_parser.c
@@ -62,7 +62,15 @@ static int source_from_stream(void *data, char *buf, int n)
     int c = getc(stream);
     if (c == EOF)
     {
-        return feof(stream)? 0 : -1;
+        if (feof(stream))
+        {
+            return 0;
+        }
+        if (errno == 0)
+        {
+            errno = EIO;
+        }
+        return -1;
     }
     *buf = c;
     return 1;
-- 
2.43.0


From 7758b8a0f826f5df15c2ce6350521db514abfb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:44 +0000
Subject: [PATCH 43/43] fix: parse buffers of 2GiB and more

---
 lib/src/parser.c       | 2 +-
 lib/src/quick_parser.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 0bcad5a..c2ae4cd 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -70,7 +70,7 @@ struct source_from_buffer_data
 static int source_from_buffer(void *data, char *buf, int n)
 {
     struct source_from_buffer_data *input = data;
-    int len = min(input->length, n);
+    int len = (int)minzu(input->length, (size_t)n);
     input->length -= len;
     if (len == 0)
     {
diff --git a/lib/src/quick_parser.c b/lib/src/quick_parser.c
index b58fadf..c794e87 100644
--- a/lib/src/quick_parser.c
+++ b/lib/src/quick_parser.c
@@ -44,7 +44,7 @@ struct source_from_buffer_data
 static int source_from_buffer(void *data, char *buf, int n)
 {
     struct source_from_buffer_data *input = data;
-    int len = min(input->length, n);
+    int len = (int)minzu(input->length, (size_t)n);
     input->length -= len;
     if (len == 0)
     {
-- 
2.43.0

