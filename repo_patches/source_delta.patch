From 5998045913aaadf30a5dd038165aca34ddccfafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 01/63] fix: include without a <path> is a parse error instead
 of being ignored

The result of expecting the path token was dropped, so any other token
was used as a file name.
---
 src/hob3l/syn.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index 3ba8d31..4414b6d 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -839,12 +839,15 @@ static bool parse_include_push_stmt_item(
     cp_v_syn_stmt_item_p_t *r,
     char const *fn)
 {
+    if (p->c.tok.type != T_PATH) {
+        return false;
+    }
     cp_syn_file_t *file = CP_NEW(*file);
     if (!cp_syn_read(file, p->err, p->input, p->c.tok.loc, fn, NULL)) {
         assert(p->err->msg.size > 0);
         return false;
     }
-    expect(p, T_PATH);
+    tok_next(p);
 
     parse_ctxt_t prev = begin_file(p, file);
 
-- 
2.43.0


From 6f80bce04ce405bf2c22bb2cf1521745a00563e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 02/63] fix: accept include at the top level of a file

The top-level statement list stopped at every keyword except 'use', so
the documented 'include <file>' only worked inside a block.
---
 src/hob3l/syn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index 4414b6d..ee581d9 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -921,7 +921,7 @@ static bool parse_stmt_list(
             }
             break;}
         default:
-            if (p->c.tok.type & _T_KEY) {
+            if ((p->c.tok.type & _T_KEY) && (p->c.tok.type != K_INCLUDE)) {
                 return true;
             }
             if (!parse_item_push_stmt(p, r)) {
-- 
2.43.0


From b5bb8b33f2748ad3303017d7352ddec36eb10515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 03/63] fix: an ignored unknown parameter must not end the
 argument list

With the default setting (warn), the first unknown parameter name made
get_arg() return success at once: all later arguments were dropped and
missing mandatory parameters were not noticed (polygon(foo=1) crashed).
---
 src/hob3l/scad.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index 43078f4..2ce9675 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -741,8 +741,12 @@ static bool get_arg(
                     goto get;
                 }
             }
-            return msg(t, t->opt->err_unknown_param, a->value->loc, NULL,
-                "Unknown parameter name '%s'.", a->key);
+            if (!msg(t, t->opt->err_unknown_param, a->value->loc, NULL,
+                "Unknown parameter name '%s'.", a->key))
+            {
+                return false;
+            }
+            continue;
         }
 
     get:
-- 
2.43.0


From 6f59e66e98053ddba9c54c09479ce4d5e0b69c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 04/63] fix: report a matrix parameter that is no array instead
 of aborting

get_mat4() cast the value before looking at its type: multmatrix(5)
failed an assertion.
---
 src/hob3l/scad.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index 2ce9675..baecfbe 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -597,8 +597,8 @@ static bool get_mat4(
     /* This also accepts 3x3 matrices and 4x3 matrixes and will
      * add missing columns and rows from the unit matrix */
 
-    cp_syn_value_array_t const *a = cp_syn_cast(*a, v);
-    if ((v->type != CP_SYN_VALUE_ARRAY) ||
+    cp_syn_value_array_t const *a = cp_syn_try_cast(*a, v);
+    if ((a == NULL) ||
         (
             (a->value.size != 2) &&
             (a->value.size != 3) &&
-- 
2.43.0


From d01f2cb4084864e7be2c3cf602fe3411397457e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 05/63] fix: report 'use' as an error instead of aborting

The statement is accepted by the parser and then ran into a 'not yet
implemented' panic.
---
 src/hob3l/scad.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index baecfbe..5363838 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -1598,11 +1598,11 @@ static bool v_scad_from_syn_stmt_item(
 }
 
 static bool v_scad_from_syn_stmt_use(
-    ctxt_t *t CP_UNUSED,
+    ctxt_t *t,
     cp_v_scad_p_t *result CP_UNUSED,
-    cp_syn_stmt_use_t *f CP_UNUSED)
+    cp_syn_stmt_use_t *f)
 {
-    CP_NYI("`use <...>`");
+    return msg_fail(t, f->loc, NULL, "'use' is not supported.");
 }
 
 static bool v_scad_from_syn_stmt(
-- 
2.43.0


From cf61b0a90bc2b66098778ec05618ee5cb19a1a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 06/63] fix: report 'surface' as an error instead of aborting

---
 src/hob3l/csg3.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 2bf0ac5..063fd74 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -999,8 +999,7 @@ static bool csg3_from_surface(
 
     (void)r;
     (void)m;
-    CP_NYI("surface");
-    return false;
+    return msg(c, CP_ERR_FAIL, s->loc, NULL, "'surface' is not supported.");
 }
 
 static bool csg3_from_text(
-- 
2.43.0


From 00b6df3b0b6770e40f7aea4c48ab624c99381621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 07/63] fix: an intersection may end with ignored children

With one non-empty child followed by an empty one, for example
intersection(){ cube(5); group(){} }, only one operand remains after the
loop, which failed an assertion.
---
 src/hob3l/csg3.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 063fd74..e641eec 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -249,14 +249,14 @@ static bool csg3_from_intersection(
         }
     }
 
+    csg3_cut_push_add(&cut, &add);
     if (cut.size == 0) {
-        cp_v_append(r, &add);
-        cp_v_fini(&add);
         return true;
     }
-
-    csg3_cut_push_add(&cut, &add);
-    assert(cut.size >= 2);
+    if (cut.size == 1) {
+        cp_v_append(r, &cp_v_nth(&cut, 0)->add);
+        return true;
+    }
 
     cp_csg_cut_t *o = cp_csg_new(*o, s->loc);
     cp_v_push(r, cp_obj(o));
-- 
2.43.0


From ad2093548e35c1f8f4c6ca721f09cb9fc2a645c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 08/63] fix: report an unknown colour name instead of crashing

---
 src/hob3l/gc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/gc.c b/src/hob3l/gc.c
index f2fe110..cc777a7 100644
--- a/src/hob3l/gc.c
+++ b/src/hob3l/gc.c
@@ -81,6 +81,9 @@ extern bool cp_color_by_name(
 
     /* by name */
     color_value_t const *c = color_find(name, len);
+    if (c == NULL) {
+        return false;
+    }
     rgb->r = (c->rgb >> 16) & 0xff;
     rgb->g = (c->rgb >> 8)  & 0xff;
     rgb->b = (c->rgb)       & 0xff;
-- 
2.43.0


From 18d14d65fd0d4510d0bdd20cb6ea1788af4c1e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 09/63] fix: look up colour names case-insensitively

doc/scadformat.md specifies case-insensitive CSS3 colour names, but
color("Red") was not found.
---
 src/hob3l/gc.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/gc.c b/src/hob3l/gc.c
index cc777a7..e80d9dd 100644
--- a/src/hob3l/gc.c
+++ b/src/hob3l/gc.c
@@ -79,8 +79,18 @@ extern bool cp_color_by_name(
         return true;
     }
 
-    /* by name */
-    color_value_t const *c = color_find(name, len);
+    /* by name, case-insensitively */
+    char low[32];
+    if (len >= sizeof(low)) {
+        return false;
+    }
+    for (size_t i = 0; i <= len; i++) {
+        low[i] = name[i];
+        if ((low[i] >= 'A') && (low[i] <= 'Z')) {
+            low[i] = (char)(low[i] - 'A' + 'a');
+        }
+    }
+    color_value_t const *c = color_find(low, len);
     if (c == NULL) {
         return false;
     }
-- 
2.43.0


From d050cb488b93cb7870d0a942a1b50a3f54234eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 10/63] fix: report an unterminated XML comment instead of
 looping forever

---
 src/hob3l/xml-parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 9a60ef5..4bdb1d1 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -439,6 +439,9 @@ static bool skip_comment(
     parse_t *p)
 {
     for (;;) {
+        if (p->cur == 0) {
+            ERR(p, p->loc, "Premature end of file inside comment.");
+        }
         if ((p->cur == '-') && (*p->str_next == '-')) {
             TRY(expect(p, "-->"));
             return true;
-- 
2.43.0


From 55aacae2f96f2274758d6fca90b71af23ad56c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 11/63] fix: end of file ends an XML tag name

The scan for the end of the name never stopped at the end of the file.
---
 src/hob3l/xml-parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 4bdb1d1..1bdecd0 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -177,7 +177,7 @@ static bool maybe_tag_begin(unsigned c)
 
 static bool is_tag_char(unsigned c)
 {
-    if (cp_xml_is_space(c)) {
+    if ((c == 0) || cp_xml_is_space(c)) {
         return false;
     }
     if (c > 0x7f) {
-- 
2.43.0


From 087e33ab9572e109c5efca169c834222494c8d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 12/63] fix: reject empty XML names

The start of the name was compared with a member that was never set, so
empty names were accepted; in an attribute list, this looped forever.
---
 src/hob3l/xml-parse.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 1bdecd0..dd2abef 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -15,7 +15,6 @@ typedef struct {
     char *str_next;
     char *str_end;
 
-    char *tok_start;
 } parse_t;
 
 typedef struct ctxt ctxt_t;
@@ -203,8 +202,8 @@ static char *parse_tag(
             TRY(lex_next(p));
         }
     }
-    if (p->tok_start == p->loc) {
-        ERR(p, p->tok_start, "Expected a tag name.\n");
+    if (tok == p->loc) {
+        ERR(p, tok, "Expected a tag name.\n");
     }
 
     /* NUL terminate */
-- 
2.43.0


From d728e0a4dc487aef94f0489b3139292d979c522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 13/63] fix: give XML attributes without value their name as
 value

The comment says so, but the value was left NULL and dereferenced.
---
 src/hob3l/xml-parse.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index dd2abef..4e14596 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -385,6 +385,11 @@ static bool parse_attr(
 
     /* if no = follows, then we assume x="x" */
     if (p->cur != '=') {
+        cp_xml_t *v = CP_POOL_NEW(p->tmp, *v);
+        v->type = CP_XML_CDATA;
+        v->loc = loc;
+        v->data = name;
+        r->child = v;
         return true;
     }
     TRY(lex_next(p));
-- 
2.43.0


From 3a3d614f0d0b5db94b2eee7d2bd5f723561d3eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 14/63] fix: an STL solid without name must not swallow the
 next line

---
 src/hob3l/stl-parse.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/stl-parse.c b/src/hob3l/stl-parse.c
index dae61d1..6e8113c 100644
--- a/src/hob3l/stl-parse.c
+++ b/src/hob3l/stl-parse.c
@@ -180,7 +180,10 @@ static void tok_next_line(parse_t *p)
     if (p->tok_type == T_ERROR) {
         return;
     }
-    lex_next(p);
+    /* the rest of the line may be empty: do not scan beyond it */
+    if (p->lex_cur != '\n') {
+        lex_next(p);
+    }
 
     /* Note that p->tok_string might point to '\0'.  It is needed for a
      * location pointer nevertheless. */
-- 
2.43.0


From 4f2e7c3ba9a9d9af75a0d896569d40b341cf5262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 15/63] fix: reject numbers in input files that are out of
 range

---
 src/hob3l/stl-parse.c | 11 +++++++++++
 src/hob3l/svg-parse.c |  1 +
 src/hob3l/syn.c       | 11 +++++++++++
 3 files changed, 23 insertions(+)

diff --git a/src/hob3l/stl-parse.c b/src/hob3l/stl-parse.c
index 6e8113c..3a51434 100644
--- a/src/hob3l/stl-parse.c
+++ b/src/hob3l/stl-parse.c
@@ -337,6 +337,11 @@ static bool parse_float(
     cp_f_t *v)
 {
     *v = strtod(p->tok_string, NULL);
+    if ((p->tok_type == T_FLOAT) && !cp_isfinite(*v)) {
+        p->err->loc = p->tok_loc;
+        cp_vchar_printf(&p->err->msg, "Number is too large: '%s'.\n", p->tok_string);
+        return false;
+    }
     return expect_err(p, T_FLOAT);
 }
 
@@ -544,9 +549,15 @@ static bool bin_f32(parse_t *p, float *x)
 static bool bin_f(parse_t *p, cp_f_t *x)
 {
     float v;
+    cp_loc_t loc = p->lex_string;
     if (!bin_f32(p, &v)) {
         return false;
     }
+    if (!cp_isfinite(v)) {
+        p->err->loc = loc;
+        cp_vchar_printf(&p->err->msg, "Number is not finite.\n");
+        return false;
+    }
     *x = v;
     return true;
 }
diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index c968d0a..b459708 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -941,6 +941,7 @@ static bool s_double(
     char *ep = NULL;
     double r = strtod(*sp, &ep);
     TRY(ep == se);
+    TRY(cp_isfinite(r));
     *rp = r;
     *sp = se;
     return true;
diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index ee581d9..fac2dd6 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -506,7 +506,13 @@ static bool parse_int(
     cp_syn_value_int_t *r)
 {
     assert(r->type == CP_SYN_VALUE_INT);
+    errno = 0;
     r->value = strtoll(p->c.tok.string, NULL, 10);
+    if ((p->c.tok.type == T_INT) && (errno == ERANGE)) {
+        p->err->loc = p->c.tok.loc;
+        cp_vchar_printf(&p->err->msg, "Number is too large: '%s'.\n", p->c.tok.string);
+        return false;
+    }
     return expect_err(p, T_INT);
 }
 
@@ -516,6 +522,11 @@ static bool parse_float(
 {
     assert(r->type == CP_SYN_VALUE_FLOAT);
     r->value = strtod(p->c.tok.string, NULL);
+    if ((p->c.tok.type == T_FLOAT) && !cp_isfinite(r->value)) {
+        p->err->loc = p->c.tok.loc;
+        cp_vchar_printf(&p->err->msg, "Number is too large: '%s'.\n", p->c.tok.string);
+        return false;
+    }
     return expect_err(p, T_FLOAT);
 }
 
-- 
2.43.0


From c7b51cc21f2a59ae5b3d1a6a772fc0f9bd297072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 16/63] fix: accept a sign in the exponent of an SVG number

---
 src/hob3l/svg-parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index b459708..defbee9 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -917,7 +917,7 @@ static char const *s_str_float(
     if ((*s == 'e') || (*s == 'E')) {
         char const *t = s;
         t++;
-        (void)(s_expect_raw(&s, "-") || s_expect_raw(&s, "+"));
+        (void)(s_expect_raw(&t, "-") || s_expect_raw(&t, "+"));
         bool have_exp = false;
         while ((*t >= '0') && (*t <= '9')) {
             have_exp = true;
-- 
2.43.0


From a86f9e5a6d5147271e8893bc79d8f647d46d3c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 17/63] fix: an SVG arc flag must be 0 or 1

---
 src/hob3l/svg-parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index defbee9..6b923ad 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -963,7 +963,7 @@ static bool s_bool(
         *rp = true;
         return true;
     }
-    return true;
+    return false;
 }
 
 static inline bool s_coord(
-- 
2.43.0


From c388d4f1d533a9975e2efb4b07561850654cbb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:09 +0000
Subject: [PATCH 18/63] fix: an SVG path that draws nothing is empty instead of
 aborting

---
 src/hob3l/svg-parse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 6b923ad..cd386da 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -346,6 +346,10 @@ static void path_fini(
     cp_loc_t loc)
 {
     path_end(p, loc);
+    if (p->poly == NULL) {
+        /* nothing was drawn */
+        return;
+    }
     path_uniquify(p);
 
     if (p->poly->point.size < 3) {
-- 
2.43.0


From 1d30a297bd62ee7aa38372783581c03ed43f41ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:10 +0000
Subject: [PATCH 19/63] fix: centering an SVG without viewBox used an
 uninitialised size

---
 src/hob3l/svg-parse.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index cd386da..574c8f3 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1536,6 +1536,11 @@ static bool csg2_from_svg(
         s_dim(&vh, &vs, c0->height, 1, COMMA) &&
         s_end(&vs) &&
         (vw > 0) && (vh > 0);
+    if (!have_viewBox) {
+        vx = vy = 0;
+        vw = ew;
+        vh = eh;
+    }
 
     char const *pas = s_attr_str(x, "preserveAspectRatio");
 
-- 
2.43.0


From fdc9e84e0ced596f9eb965761ac5862f1254129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:10 +0000
Subject: [PATCH 20/63] fix: PostScript output must skip empty layers

---
 src/hob3l/csg2-2ps.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/csg2-2ps.c b/src/hob3l/csg2-2ps.c
index 623fd48..11faacd 100644
--- a/src/hob3l/csg2-2ps.c
+++ b/src/hob3l/csg2-2ps.c
@@ -214,6 +214,9 @@ static void layer_put_ps(
     if (zi != r->zi) {
         return;
     }
+    if (r->root == NULL) {
+        return;
+    }
     v_csg2_put_ps(k, t, zi, &r->root->add);
 }
 
-- 
2.43.0


From 62a2bf1580f9d36e522dbe018b33204102ee9e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 21/63] fix: bounding box of a sphere must not shrink the
 maximum

---
 src/hob3l/csg3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index e641eec..5c63b5a 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -474,7 +474,7 @@ static void csg3_sphere_minmax1(
     double l = a - c;
     double h = a + c;
     if (l < bb->min.v[i]) { bb->min.v[i] = l; }
-    if (h > bb->min.v[i]) { bb->max.v[i] = h; }
+    if (h > bb->max.v[i]) { bb->max.v[i] = h; }
 }
 
 static void csg3_sphere_minmax(
-- 
2.43.0


From c151f8cfec9b2fdf455147d5313b091442b2698a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 22/63] fix: compare PostScript bounding box coordinates of the
 same axis

---
 src/hob3l/ps.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/ps.c b/src/hob3l/ps.c
index 8a55ab9..5d673aa 100644
--- a/src/hob3l/ps.c
+++ b/src/hob3l/ps.c
@@ -18,7 +18,7 @@ extern void cp_ps_xform_from_minmax(
     cp_dim_t y_max)
 {
     *d = CP_PS_XFORM_MM;
-    if (cp_gt(x_max, x_min) && cp_gt(y_max, x_min)) {
+    if (cp_gt(x_max, x_min) && cp_gt(y_max, y_min)) {
         d->mul_x = cp_min(
             (CP_PS_PAPER_X - CP_PS_PAPER_MARGIN) / (x_max - x_min),
             (CP_PS_PAPER_Y - CP_PS_PAPER_MARGIN) / (y_max - y_min));
-- 
2.43.0


From 1bbec33983325bd6719b2724d456f1418e7e56f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 23/63] fix: projecting a bounding box must include its maximum

---
 src/hob3lop/hedron.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hob3lop/hedron.c b/src/hob3lop/hedron.c
index 8835f04..bf6e7f6 100644
--- a/src/hob3lop/hedron.c
+++ b/src/hob3lop/hedron.c
@@ -20,6 +20,8 @@ extern void cq_vec3_minmax_minmax2(
 {
     cq_dim_minmax(&r->min.x, &r->max.x, v->min.v[coord0]);
     cq_dim_minmax(&r->min.y, &r->max.y, v->min.v[coord1]);
+    cq_dim_minmax(&r->min.x, &r->max.x, v->max.v[coord0]);
+    cq_dim_minmax(&r->min.y, &r->max.y, v->max.v[coord1]);
 }
 
 extern void cq_v_vec3_minmax(
-- 
2.43.0


From 0bb5a474aef391c71607e8a3850c82c643db97a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 24/63] fix: detect truncated writes and unwritable standard
 output

---
 src/hob3l/main.c       | 6 +++++-
 src/hob3lbase/stream.c | 7 ++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 706848f..3c5c2ac 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -782,10 +782,14 @@ int main(int argc, char **argv)
     bool ok = do_file(sout, &opt, err, input, in_file_name, NULL);
     assert(ok || (err->msg.size > 0));
 
+    if (fflush(stdout) != 0) {
+        cp_panic(CP_FILE, CP_LINE, "Unable to write to standard output: %s\n",
+            strerror(errno));
+    }
     if (fout != NULL) {
         if (fclose(fout) != 0) {
             cp_panic(CP_FILE, CP_LINE, "Unable to close output file '%s': %s\n",
-                opt.out_file_name, strerror(ferror(fout)));
+                opt.out_file_name, strerror(errno));
         }
     }
 
diff --git a/src/hob3lbase/stream.c b/src/hob3lbase/stream.c
index f4fbc38..fad505a 100644
--- a/src/hob3lbase/stream.c
+++ b/src/hob3lbase/stream.c
@@ -1,6 +1,7 @@
 /* -*- Mode: C -*- */
 /* Copyright (C) 2018-2024 by Henrik Theiling, License: GPLv3, see LICENSE file */
 
+#include <errno.h>
 #include <hob3lbase/stream.h>
 #include <hob3lbase/panic.h>
 
@@ -29,7 +30,7 @@ extern void cp_stream_vfprintf(
     int i = vfprintf(f, form, va);
     if (i < 0) {
         cp_panic(CP_FILE, CP_LINE, "Unable to write output file: %s\n",
-            strerror(ferror(f)));
+            strerror(errno));
     }
 }
 
@@ -42,8 +43,8 @@ extern void cp_stream_fwrite(
     size_t size)
 {
     size_t i = fwrite(buff, 1, size, f);
-    if (i == 0) {
+    if (i != size) {
         cp_panic(CP_FILE, CP_LINE, "Unable to write output file: %s\n",
-            strerror(ferror(f)));
+            strerror(errno));
     }
 }
-- 
2.43.0


From feece70f5555994617f8799ad04229c4757c91c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:32 +0000
Subject: [PATCH 25/63] fix: the output stream object must outlive the block
 that opens the file

---
 src/hob3l/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 3c5c2ac..a72f590 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -743,7 +743,7 @@ int main(int argc, char **argv)
                 opt.out_file_name, strerror(errno));
             exit(EXIT_FAILURE);
         }
-        sout = CP_STREAM_FROM_FILE(fout);
+        *sout = *CP_STREAM_FROM_FILE(fout);
 
         if (opt.dump == DUMP_NONE) {
             if (has_suffix(opt.out_file_name, ".stl")) {
-- 
2.43.0


From b04b5f77ef2d78833ea903672dcf41d950d89555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 26/63] fix: do not truncate the output file when the command
 line is wrong

---
 src/hob3l/main.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index a72f590..3f33f66 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -705,6 +705,11 @@ int main(int argc, char **argv)
         }
     }
 
+    if (in_file_name == NULL) {
+        fprintf(stderr, "Error: Expected an input file name.  See --help.\n");
+        exit(EXIT_FAILURE);
+    }
+
     /* post-process options */
     if (!cp_eq(opt.cq_dim_scale_recip, 0)) {
         cq_dim_scale = 1.0 / opt.cq_dim_scale_recip;
@@ -737,14 +742,6 @@ int main(int argc, char **argv)
     cp_stream_t *sout = CP_STREAM_FROM_FILE(stdout);
     FILE *fout = NULL;
     if (opt.out_file_name) {
-        fout = fopen(opt.out_file_name, "wt");
-        if (fout == NULL) {
-            fprintf(stderr, "Error: Unable to open '%s' for writing: %s\n",
-                opt.out_file_name, strerror(errno));
-            exit(EXIT_FAILURE);
-        }
-        *sout = *CP_STREAM_FROM_FILE(fout);
-
         if (opt.dump == DUMP_NONE) {
             if (has_suffix(opt.out_file_name, ".stl")) {
                 opt.dump = DUMP_STL;
@@ -773,6 +770,15 @@ int main(int argc, char **argv)
                 exit(EXIT_FAILURE);
             }
         }
+
+        /* the command line is OK: open (and truncate) the file */
+        fout = fopen(opt.out_file_name, "wt");
+        if (fout == NULL) {
+            fprintf(stderr, "Error: Unable to open '%s' for writing: %s\n",
+                opt.out_file_name, strerror(errno));
+            exit(EXIT_FAILURE);
+        }
+        *sout = *CP_STREAM_FROM_FILE(fout);
     }
 
     /* process files */
-- 
2.43.0


From 30639aa240a75167b2698df684787f2d00165583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 27/63] fix: reject option values that are out of range

---
 src/hob3l/main.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 3f33f66..57ba1ba 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -522,8 +522,9 @@ static void get_arg_size(
     char const *str)
 {
     char *r = NULL;
+    errno = 0;
     unsigned long long val = strtoull(str, &r, 10);
-    if ((str == r) || (*r != '\0')) {
+    if ((str == r) || (*r != '\0') || (errno == ERANGE)) {
         fprintf(stderr, "Error: %s: invalid number: '%s'\n", arg, str);
         exit(EXIT_FAILURE);
     }
@@ -565,7 +566,7 @@ static void get_arg_rgb(
 {
     char *r = NULL;
     unsigned long w = strtoul(str, &r, 16);
-    if ((str == r) || (*r != '\0')) {
+    if ((str == r) || (*r != '\0') || (w > 0xffffff)) {
         fprintf(stderr, "Error: %s: invalid rgb color: '%s'\n", arg, str);
         exit(EXIT_FAILURE);
     }
-- 
2.43.0


From f5050f78a36c11beff6c6c31b2337228e6ec4ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:09 +0000
Subject: [PATCH 28/63] fix: an option without its 'no-' must do the opposite,
 not nothing

---
 script/mkswitch | 1 +
 1 file changed, 1 insertion(+)

diff --git a/script/mkswitch b/script/mkswitch
index 8257e0d..d914fab 100755
--- a/script/mkswitch
+++ b/script/mkswitch
@@ -50,6 +50,7 @@ sub learn_case($$$$$)
             # prepare negative case:
             $neg_case->{arg}{name} = $case->{arg}{name};
             $neg_case->{arg}{type} = $case->{arg}{type};
+            $neg_case->{action} = $case->{action};
             if ($case->{arg}{conv} eq 'bool') {
                 $neg_case->{arg}{conv} = 'neg_bool';
             }
-- 
2.43.0


From 815667931c7a1cb75b145452ab1e51545ce0b156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:09 +0000
Subject: [PATCH 29/63] fix: help text states the actual default of --max-fn

---
 src/hob3l/opt.switch | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/opt.switch b/src/hob3l/opt.switch
index 34454fa..bdfad95 100644
--- a/src/hob3l/opt.switch
+++ b/src/hob3l/opt.switch
@@ -73,7 +73,7 @@ case "z": dim &opt->z_min {
 }
 
 case "max-fn": uint32 &opt->csg.max_fn {
-    "maximum value of $fn for treating round objects as polyhedra (default: 50).";
+    "maximum value of $fn for treating round objects as polyhedra (default: 100).";
     "At $fn values larger than this, spheres will be sliced into circles";
     "and not converted to polyhedra.";
     "Currently, because no output format has circular arc structures, no attempt";
-- 
2.43.0


From 3f4cd02ac35fd1c9c47d51d7c35fa72855ffd6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:17 +0000
Subject: [PATCH 30/63] fix: bounding box of an intersection must include its
 first operand

---
 src/hob3l/csg3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 5c63b5a..158f79b 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -2378,7 +2378,7 @@ static void get_bb_cut(
     }
     else {
         cp_vec3_minmax_t bb2 = CP_VEC3_MINMAX_FULL;
-        for (cp_v_each(i, &r->cut, 1)) {
+        for (cp_v_each(i, &r->cut)) {
             cp_vec3_minmax_t bb3 = CP_VEC3_MINMAX_EMPTY;
             get_bb_add(&bb3, cp_v_nth(&r->cut,i), max);
             cp_vec3_minmax_and(&bb2, &bb2, &bb3);
-- 
2.43.0


From a0c61954b2a15b92ca6b7eb60bc4671799095f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:08 +0000
Subject: [PATCH 31/63] fix: SVG layer selection must not depend on a
 'transform' attribute

---
 src/hob3l/svg-parse.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 574c8f3..bfe41be 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1457,15 +1457,14 @@ static void process_std_attr(
 {
     /* process transform commands */
     char const *s = s_attr_str(xml, "transform");
-    if (s == NULL) {
-        return;
-    }
-    s_sep(&s, SPACE);
-    while (*s != 0) {
-        if (!xform_cmd(c, n, p, &s)) {
-            return;
+    if (s != NULL) {
+        s_sep(&s, SPACE);
+        while (*s != 0) {
+            if (!xform_cmd(c, n, p, &s)) {
+                break;
+            }
+            s_sep(&s, COMMA);
         }
-        s_sep(&s, COMMA);
     }
 
     /* compare layer with `id` attribute in SVG, like InkScape stores it. */
-- 
2.43.0


From b5c4039fd260a2810a5b43b030dec43375a44323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:14 +0000
Subject: [PATCH 32/63] fix: accept 2x2 matrices as documented

---
 src/hob3l/scad.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index 5363838..acc93f9 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -612,6 +612,12 @@ static bool get_mat4(
     for (cp_size_each(y, a->value.size)) {
         cp_syn_value_t const *l = cp_v_nth(&a->value, y);
         cp_syn_value_array_t const *la = cp_syn_try_cast(*a, l);
+        if ((la != NULL) && (la->value.size == 2)) {
+            if (!get_vec2(&r->row[y].b.b, t, l)) {
+                return false;
+            }
+        }
+        else
         if ((la != NULL) && (la->value.size == 3)) {
             if (!get_vec3(&r->row[y].b, t, l)) {
                 return false;
-- 
2.43.0


From 86c278347b05e44a0ffbc700a48a54e2d5dadd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:15 +0000
Subject: [PATCH 33/63] fix: text accepts $fn as documented

---
 src/hob3l/scad.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index acc93f9..a64d3e5 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -1535,6 +1535,8 @@ static bool text_from_item(
     q->spacing = 1.0;
     q->tracking = 0.0;
 
+    unsigned _fn;
+
     if (!GET_ARG(t, f->loc, &f->arg,
         (
             PARAM_STR   ("text",      &q->text,      MANDATORY),
@@ -1549,6 +1551,7 @@ static bool text_from_item(
             PARAM_STR   ("script",    &q->script,    OPTIONAL),
             PARAM_FLOAT ("spacing",   &q->spacing,   OPTIONAL),
             PARAM_FLOAT ("tracking",  &q->tracking,  OPTIONAL),
+            PARAM_UINT32("$fn",       &_fn,          OPTIONAL),
         )))
     {
         return false;
-- 
2.43.0


From 084029584445ffee5ad00d7847f1038f57a53b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:39 +0000
Subject: [PATCH 34/63] fix: --dump-scad must write the mandatory 'c' of
 color()

---
 src/hob3l/scad-2scad.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/scad-2scad.c b/src/hob3l/scad-2scad.c
index 4cb6818..1040cb4 100644
--- a/src/hob3l/scad-2scad.c
+++ b/src/hob3l/scad-2scad.c
@@ -113,7 +113,7 @@ static void color_put_scad(
             r->rgba.a/255.0);
     }
     else {
-        cp_printf(s, "color(alpha=%.3g){\n",
+        cp_printf(s, "color(c=undef,alpha=%.3g){\n",
             r->rgba.a/255.0);
     }
     v_scad_put_scad(s, d + IND, &r->child);
-- 
2.43.0


From 73fe671269a687ffd6cab3e41e2737c63e0ce6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:39 +0000
Subject: [PATCH 35/63] fix: --dump-scad must write import() as it can be read,
 with all parameters

---
 src/hob3l/scad-2scad.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/scad-2scad.c b/src/hob3l/scad-2scad.c
index 1040cb4..a85877c 100644
--- a/src/hob3l/scad-2scad.c
+++ b/src/hob3l/scad-2scad.c
@@ -124,10 +124,17 @@ static void import_put_scad(
     cp_stream_t *s,
     cp_scad_import_t const *r)
 {
-    cp_printf(s, "import(s=\"%s\""
+    cp_printf(s, "import(file=\"%s\"", r->file_tok);
+    if (r->layer != NULL) {
+        cp_printf(s, ", layer=\"%s\"", r->layer);
+    }
+    if (r->id_tok != NULL) {
+        cp_printf(s, ", id=\"%s\"", r->id_tok);
+    }
+    cp_printf(s, ", center=%s, dpi="FF""
         ", $fn=%u, $fa=%g, $fs=%g"
         ");\n",
-        r->file_tok,
+        r->center ? "true" : "false", r->dpi,
         r->detail._fn, r->detail._fa, r->detail._fs);
 }
 
-- 
2.43.0


From e5e8687a9068e41210ed06b940335eafae1766a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:40 +0000
Subject: [PATCH 36/63] fix: --dump-scad must write surface() as it can be read

---
 src/hob3l/scad-2scad.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/scad-2scad.c b/src/hob3l/scad-2scad.c
index a85877c..58f13f7 100644
--- a/src/hob3l/scad-2scad.c
+++ b/src/hob3l/scad-2scad.c
@@ -142,7 +142,7 @@ static void surface_put_scad(
     cp_stream_t *s,
     cp_scad_surface_t const *r)
 {
-    cp_printf(s, "surface(s=\"%s\",center=%s);\n",
+    cp_printf(s, "surface(file=\"%s\",center=%s);\n",
         r->file_tok, r->center?"true":"false");
 }
 
-- 
2.43.0


From 61d98c878ff5eb6ccb75f9694fe83315d7571f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:40 +0000
Subject: [PATCH 37/63] fix: --dump-scad must write text() as it can be read,
 with all parameters

---
 src/hob3l/scad-2scad.c | 8 ++++----
 src/hob3l/scad.c       | 4 +---
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/hob3l/scad-2scad.c b/src/hob3l/scad-2scad.c
index 58f13f7..2fccd7c 100644
--- a/src/hob3l/scad-2scad.c
+++ b/src/hob3l/scad-2scad.c
@@ -152,12 +152,12 @@ static void text_put_scad(
 {
     cp_printf(s,
         "text(text=\"%s\",size=%g,font=\"%s\",halign=\"%s\",valign=\"%s\","
-        "spacing=%g,direction=\"%s\",language=\"%s\",script=\"%s\""
-        ",$fn=%u,$fa=%g,$fs=%g"
+        "spacing=%g,tracking=%g,direction=\"%s\",language=\"%s\",script=\"%s\""
+        ",$fn=%u"
         ");\n",
         r->text, r->size, r->font, r->halign, r->valign,
-        r->spacing, r->direction, r->language, r->script,
-        r->detail._fn, r->detail._fa, r->detail._fs);
+        r->spacing, r->tracking, r->direction, r->language, r->script,
+        r->detail._fn);
 }
 
 static void projection_put_scad(
diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index a64d3e5..a933284 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -1535,8 +1535,6 @@ static bool text_from_item(
     q->spacing = 1.0;
     q->tracking = 0.0;
 
-    unsigned _fn;
-
     if (!GET_ARG(t, f->loc, &f->arg,
         (
             PARAM_STR   ("text",      &q->text,      MANDATORY),
@@ -1551,7 +1549,7 @@ static bool text_from_item(
             PARAM_STR   ("script",    &q->script,    OPTIONAL),
             PARAM_FLOAT ("spacing",   &q->spacing,   OPTIONAL),
             PARAM_FLOAT ("tracking",  &q->tracking,  OPTIONAL),
-            PARAM_UINT32("$fn",       &_fn,          OPTIONAL),
+            PARAM_UINT32("$fn",       &q->detail._fn, OPTIONAL),
         )))
     {
         return false;
-- 
2.43.0


From 273c45bc518635ec95ae9a657bc0b31cc2dee0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:41 +0000
Subject: [PATCH 38/63] fix: --dump-csg3 must not write a parameter that
 sphere() does not have

---
 src/hob3l/csg3-2scad.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/csg3-2scad.c b/src/hob3l/csg3-2scad.c
index d944c2f..a3e4439 100644
--- a/src/hob3l/csg3-2scad.c
+++ b/src/hob3l/csg3-2scad.c
@@ -38,7 +38,7 @@ static void sphere_put_scad(
     cp_printf(s, "%*s", d,"");
     cp_gc_modifier_put_scad(s, r->gc.modifier);
     mat3wi_put_scad(s, r->mat);
-    cp_printf(s, " sphere(r=1,center=true,$fn=%"CP_Z"u);\n",
+    cp_printf(s, " sphere(r=1,$fn=%"CP_Z"u);\n",
         r->_fn);
 }
 
-- 
2.43.0


From b32b9991ba8262f4ac137a3dfa2eb9e3f4929665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 39/63] fix: SVG preserveAspectRatio: align and keep the aspect
 ratio by default, but not for 'none'

The test was inverted: with an alignment, the picture was stretched, and with
'none' or without the attribute, it was scaled uniformly and moved by -1 times
the free space.
---
 src/hob3l/svg-parse.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index bfe41be..ac3f65b 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -758,7 +758,7 @@ static double match_align(
     if (strstr(haystack, needle_min)) { return 0; }
     if (strstr(haystack, needle_mid)) { return 0.5; }
     if (strstr(haystack, needle_max)) { return 1; }
-    return -1;
+    return 0.5;
 }
 
 static char const *s_sep(
@@ -1028,10 +1028,10 @@ static void svg_xform(
 
     s_expect(&pas, "defer");
 
-    /* 0 = min, 0.5 = mid, 1 = max, <0 = none */
+    /* 0 = min, 0.5 = mid (the default), 1 = max */
     double align_x = match_align(pas, "xMin", "xMid", "xMax");
     double align_y = match_align(pas, "YMin", "YMid", "YMax");
-    bool do_align = (align_x < 0) && (align_y < 0);
+    bool do_align = (strstr(pas, "none") == NULL);
     bool slice = (strstr(pas, "slice") != NULL);
 
     double scale_x = cp_div0(ew, vw);
@@ -1056,8 +1056,8 @@ static void svg_xform(
     cp_mat2wi_scale(m, scale_x, scale_y);
     m->n.w.x = xlat_x;
     m->n.w.y = xlat_y;
-    m->i.w.x = cp_div0(xlat_x, scale_x);
-    m->i.w.y = cp_div0(xlat_y, scale_y);
+    m->i.w.x = -cp_div0(xlat_x, scale_x);
+    m->i.w.y = -cp_div0(xlat_y, scale_y);
 }
 
 static char const *s_attr_str(
-- 
2.43.0


From 23d074b5faf7db3084321b18a71543d2867f7d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 40/63] fix: SVG: read y (cy, height, ...) also when x (cx,
 width, ...) is missing

---
 src/hob3l/svg-parse.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index ac3f65b..f4a9e21 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1110,9 +1110,10 @@ static bool s_attr_coord(
 {
     *xp = 0.0;
     *yp = 0.0;
-    return
-        s_attr_dim(xp, xml, namex, c->width,  1) &&
-        s_attr_dim(yp, xml, namey, c->height, 1);
+    /* each one is optional: also read the second if the first is missing */
+    bool have_x = s_attr_dim(xp, xml, namex, c->width,  1);
+    bool have_y = s_attr_dim(yp, xml, namey, c->height, 1);
+    return have_x && have_y;
 }
 
 static bool s_attr_size(
-- 
2.43.0


From a26aefc557c73e4990db649854a251b09664cc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 41/63] fix: SVG: a line or arc of length 0 must end a curve
 sequence

---
 src/hob3l/svg-parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index f4a9e21..77e2773 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -407,6 +407,7 @@ static inline void path_line_abs(
     double y)
 {
     if (cp_eq(p->cur_x, x) && cp_eq(p->cur_y, y)) {
+        p->prev_cmd = 0;
         return;
     }
     path_start(p, loc);
@@ -668,6 +669,7 @@ static inline void path_arc_abs(
 
     /* 9.5.1 */
     if (cp_eq(p->cur_x, x2) && cp_eq(p->cur_y, y2)) {
+        p->prev_cmd = 0;
         return;
     }
 
-- 
2.43.0


From 5262a39d1f5cfcf06c1feae4c90973ec0598e383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 42/63] fix: SVG: 'Z' directly after 'M' must return to the
 point of that 'M'

---
 src/hob3l/svg-parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 77e2773..388504b 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -466,6 +466,8 @@ static void path_move(
     }
     path_end(p, loc);
     path_cur(p, loc, x, y, 0,0,0);
+    p->init_x = x;
+    p->init_y = y;
 }
 
 static inline void path_quad_abs(
-- 
2.43.0


From a6a21d7ccf69952a23322ebe3ac6c22ceab207bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 43/63] fix: hull() ignored the 2D transformations around it

---
 src/hob3l/csg3.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 158f79b..8747bc1 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1761,10 +1761,9 @@ static bool csg3_from_hull(
     ctxt_t c2 = *c;
     cp_v_obj_p_t rc = {0}; /* FIXME: temporary should be in pool */
 
-    /* start with fresh matrix in 2D space */
-    local_t mn = *m;
-    mn.mat = the_unit(c->tree);
-    if (!csg3_from_v_scad(no, &rc, &c2, &mn, &s->child)) {
+    /* the convex hull commutes with the current 2D transformation, so just
+     * apply that to the children */
+    if (!csg3_from_v_scad(no, &rc, &c2, m, &s->child)) {
         assert(c->err->msg.size > 0);
         return false;
     }
-- 
2.43.0


From c68bd7c9ca8d67d0470fb05406cc40c33eec86b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:33 +0000
Subject: [PATCH 44/63] fix: projection() ignored the 2D transformations around
 it

---
 src/hob3l/csg3.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 8747bc1..f05dbf3 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1162,9 +1162,20 @@ static bool csg3_from_projection(
     cp_csg3_tree_t *csg3 = CP_NEW(*csg3);
     csg3_init_tree(csg3, s->loc);
 
-    /* start with fresh matrix in 2D space */
+    /* apply the current 2D transformation to the 3D children: this moves x and y,
+     * but not z, so it commutes with cutting at z=0 */
+    cp_mat3w_t m2 = m->mat->n;
+    m2.b.row[0].z = 0;
+    m2.b.row[1].z = 0;
+    m2.b.row[2] = (cp_vec3_t){{ 0, 0, 1 }};
+    m2.w.z = 0;
+    cp_mat3wi_t *m1 = mat_new(c->tree);
+    if (!cp_mat3wi_from_mat3w(m1, &m2)) {
+        return msg(c, c->opt->err_collapse, s->loc, NULL,
+            "'projection' is collapsed by a transformation.\n");
+    }
     local_t mn = *m;
-    mn.mat = the_unit(c->tree);
+    mn.mat = m1;
     if (!csg3_from_v_scad(no, &csg3->root->add, &c2, &mn, &s->child)) {
         assert(c->err->msg.size > 0);
         return false;
-- 
2.43.0


From 0fe2fd802d862f8e834e160242a2b350e7a533ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 45/63] fix: linear_extrude clamps a negative scale only for
 the top layer, not for the ones below it

---
 src/hob3l/csg3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index f05dbf3..e741fef 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1716,7 +1716,7 @@ static bool csg3_from_linext(
             cp_mat2w_t mk = {0};
             cp_mat2w_rot(&mk, &CP_SINCOS_DEG(z * -twist));
             cp_mat2w_t mks = {0};
-            cp_mat2w_scale(&mks, cp_lerp(1, s->scale.x, z), cp_lerp(1, s->scale.y, z));
+            cp_mat2w_scale(&mks, cp_lerp(1, scale.x, z), cp_lerp(1, scale.y, z));
             cp_mat2w_mul(&mk, &mks, &mk);
             for (cp_v_each(j, &q->point_idx)) {
                  size_t const jo = cp_v_nth(&q->point_idx, j);
-- 
2.43.0


From 4c5d96d980e28a7d8b44e350d3428b68b0471e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 46/63] fix: an intersection with an empty child that is not
 ignored is empty

Documented in scadformat.md: only ignored children do not cause the
result to be empty.
---
 src/hob3l/csg3.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index e741fef..24b1882 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -238,19 +238,28 @@ static bool csg3_from_intersection(
     cp_scad_intersection_t const *s)
 {
     cp_v_csg_add_p_t cut = CP_V_INIT;
+    bool empty = false;
 
     /* each child is a union */
     cp_v_obj_p_t add = CP_V_INIT;
     for (cp_v_each(i, &s->child)) {
         csg3_cut_push_add(&cut, &add);
-        if (!csg3_from_scad(no, &add, c, m, cp_v_nth(&s->child, i))) {
+        bool add_no = false;
+        if (!csg3_from_scad(&add_no, &add, c, m, cp_v_nth(&s->child, i))) {
             assert(c->err->msg.size > 0);
             return false;
         }
+        if (add_no) {
+            *no = true;
+            if (add.size == 0) {
+                /* not ignored, but empty: the whole result is empty */
+                empty = true;
+            }
+        }
     }
 
     csg3_cut_push_add(&cut, &add);
-    if (cut.size == 0) {
+    if (empty || (cut.size == 0)) {
         return true;
     }
     if (cut.size == 1) {
-- 
2.43.0


From eb421331d2528a5266134636cf1a5dfd07569199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:12 +0000
Subject: [PATCH 47/63] fix: 2D objects in 3D context are not ignored children

Documented in scadformat.md.  With --outside-2d=ignore, a leading one is
the (empty) base of a difference, and one in an intersection empties it.
---
 src/hob3l/csg3.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 24b1882..aab324b 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1018,11 +1018,11 @@ static bool csg3_from_text(
     local_t const *mo CP_UNUSED,
     cp_scad_text_t const *s)
 {
+    *no = true;
     if (c->context != IN2D) {
         return msg(c, c->opt->err_outside_2d, s->loc, NULL,
             "'text' found outside 2D context.");
     }
-    *no = true;
 
 #ifdef WITH_FONT
     cp_font_gc_t gc = {0};
@@ -1226,10 +1226,10 @@ static bool csg3_from_polygon(
     local_t const *m,
     cp_scad_polygon_t const *s)
 {
+    *no = true;
     if (c->context != IN2D) {
         return msg(c, c->opt->err_outside_2d, s->loc, NULL, "'polygon' found outside 2D context.");
     }
-    *no = true;
 
     if (s->points.size < 3) {
         return msg(c, c->opt->err_empty, s->loc, NULL,
@@ -1349,10 +1349,10 @@ static bool csg3_from_circle(
     local_t const *mo,
     cp_scad_circle_t const *s)
 {
+    *no = true;
     if (c->context != IN2D) {
         return msg(c, c->opt->err_outside_2d, s->loc, NULL, "'circle' found outside 2D context.");
     }
-    *no = true;
 
     /* size 0 in any direction is an error */
     if (cp_eq(s->r, 0)) {
@@ -1409,10 +1409,10 @@ static bool csg3_from_square(
     local_t const *mo,
     cp_scad_square_t const *s)
 {
+    *no = true;
     if (c->context != IN2D) {
         return msg(c, c->opt->err_outside_2d, s->loc, NULL, "'square' found outside 2D context.");
     }
-    *no = true;
 
     /* size 0 in any direction is an error */
     if (!good_scale2(&s->size)) {
-- 
2.43.0


From fe3aea99f3360bd5083dd6819ccb28ce79615c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:33 +0000
Subject: [PATCH 48/63] fix: a collapsed transformation is ignored only if its
 children are

Documented in scadformat.md: IGNORE(F(...) Cs) = IGNORE(Cs).  With
--collapse=ignore, a collapsed first child of a difference was skipped, so
the next child became the base.
---
 src/hob3l/csg3.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index aab324b..dd8df60 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -110,6 +110,19 @@ static bool csg3_from_v_scad(
     return true;
 }
 
+/**
+ * The functor's result is empty, but whether it is ignored still
+ * depends on its children. */
+static bool csg3_collapsed(
+    bool *no,
+    ctxt_t *c,
+    local_t const *m,
+    cp_v_scad_p_t const *ss)
+{
+    cp_v_obj_p_t r = CP_V_INIT;
+    return csg3_from_v_scad(no, &r, c, m, ss);
+}
+
 static bool csg3_from_rec(
     bool *no,
     cp_v_obj_p_t *r,
@@ -343,7 +356,8 @@ static bool csg3_from_scale(
 {
     if (!good_scale(&s->v)) {
         return msg(c, c->opt->err_collapse, s->loc, NULL,
-           "Expected non-zero scale, but v=["FF3"].\n", CP_V012(s->v));
+           "Expected non-zero scale, but v=["FF3"].\n", CP_V012(s->v)) &&
+           csg3_collapsed(no, c, mo, &s->child);
     }
     cp_mat3wi_t *m1 = mat_new(c->tree);
     cp_mat3wi_scale_v(m1, &s->v);
@@ -363,7 +377,8 @@ static bool csg3_from_multmatrix(
 {
     cp_mat3wi_t *m1 = mat_new(c->tree);
     if (!cp_mat3wi_from_mat3w(m1, &s->m)) {
-        return msg(c, c->opt->err_collapse, s->loc, NULL, "Non-invertible matrix.\n");
+        return msg(c, c->opt->err_collapse, s->loc, NULL, "Non-invertible matrix.\n") &&
+            csg3_collapsed(no, c, mo, &s->child);
     }
     cp_mat3wi_mul(m1, mo->mat, m1);
 
@@ -1181,7 +1196,8 @@ static bool csg3_from_projection(
     cp_mat3wi_t *m1 = mat_new(c->tree);
     if (!cp_mat3wi_from_mat3w(m1, &m2)) {
         return msg(c, c->opt->err_collapse, s->loc, NULL,
-            "'projection' is collapsed by a transformation.\n");
+            "'projection' is collapsed by a transformation.\n") &&
+            csg3_collapsed(no, &c2, m, &s->child);
     }
     local_t mn = *m;
     mn.mat = m1;
-- 
2.43.0


From b293c8a0088f6be7ca98ace88966671d9b7ad0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:34 +0000
Subject: [PATCH 49/63] fix: inverting a matrix into another one must use the
 determinant of its input

---
 script/mkmat               |  2 +-
 src/hob3lmat/mat_gen_ext.c | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/script/mkmat b/script/mkmat
index 610e5cb..deb168a 100755
--- a/script/mkmat
+++ b/script/mkmat
@@ -1443,7 +1443,7 @@ sub gen_inv_mati($$$)
     $s.= "        r->n = a->i;\n";
     $s.= "        r->i = a->n;\n";
     $s.= "    }\n";
-    $s.= "    r->d = X_div0(1, r->d);\n";
+    $s.= "    r->d = X_div0(1, a->d);\n";
     publish_extern($oc, $p, $s);
 }
 
diff --git a/src/hob3lmat/mat_gen_ext.c b/src/hob3lmat/mat_gen_ext.c
index 012f1d9..c1264ef 100644
--- a/src/hob3lmat/mat_gen_ext.c
+++ b/src/hob3lmat/mat_gen_ext.c
@@ -1142,7 +1142,7 @@ extern void cp_mat2i_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
 
 extern void cp_mat2wi_inv(
@@ -1155,7 +1155,7 @@ extern void cp_mat2wi_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
 
 extern void cp_mat3i_inv(
@@ -1168,7 +1168,7 @@ extern void cp_mat3i_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
 
 extern void cp_mat3wi_inv(
@@ -1181,7 +1181,7 @@ extern void cp_mat3wi_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
 
 extern void cp_mat4i_inv(
@@ -1194,5 +1194,5 @@ extern void cp_mat4i_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
-- 
2.43.0


From ac02e2c79b97700fef60dc344217ea684492316a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:03 +0000
Subject: [PATCH 50/63] fix: turning a vector that points down into the z axis
 must be a rotation, not a reflection

---
 src/hob3lmat/algo.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hob3lmat/algo.c b/src/hob3lmat/algo.c
index af3b6a8..bdd7ae1 100644
--- a/src/hob3lmat/algo.c
+++ b/src/hob3lmat/algo.c
@@ -153,9 +153,10 @@ extern void cp_dim3_rot_unit_into_z(
     double y = u->y;
     double z = u->z;
     if (cp_eq(x,0) && cp_eq(y,0)) {
+        double s = z < 0 ? -1 : +1;
         *r0 = CP_VEC3(1, 0, 0);
-        *r1 = CP_VEC3(0, 1, 0);
-        *r2 = CP_VEC3(0, 0, z);
+        *r1 = CP_VEC3(0, s, 0);
+        *r2 = CP_VEC3(0, 0, s);
         return;
     }
 
-- 
2.43.0


From 2783b99d1dfecde3db5048f7ca0c32825f40aaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:58 +0000
Subject: [PATCH 51/63] fix: a place at the start of a line must be shown in
 that line, not in the one before

---
 src/hob3l/syn-msg.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/syn-msg.c b/src/hob3l/syn-msg.c
index d5b62ba..ec798b5 100644
--- a/src/hob3l/syn-msg.c
+++ b/src/hob3l/syn-msg.c
@@ -17,7 +17,7 @@ static int cmp_line(
     /* We know that we can access the next array element,
      * because if we point to the last entry, we know that
      * key == elem[0] as the last line is empty. */
-    if (key > elem[1]) {
+    if (key >= elem[1]) {
         return +1;
     }
     return 0;
@@ -160,6 +160,11 @@ extern bool cp_syn_get_loc(
             assert(loc->line != CP_SIZE_MAX);
             assert(loc->line < f->line.size);
 
+            /* the last entry delimits the last line: there is no line at end of file */
+            if ((loc->line > 0) && (loc->line + 1 == f->line.size)) {
+                loc->line--;
+            }
+
             /* compute line ranges for convenience */
             loc->copy = cp_v_nth(&f->line, loc->line);
             loc->copy_end = loc->copy;
-- 
2.43.0


From 9b6c83f997e5d683474f3aa237945d3db85247d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:46 +0000
Subject: [PATCH 52/63] fix: a NUL character must not end the input silently

---
 src/hob3l/syn.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index fac2dd6..dc194df 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -294,6 +294,15 @@ static void tok_next_aux2(parse_t *p)
         return;
     }
 
+    /* a NUL character is not the end of the file */
+    if ((p->c.lex.cur == '\0') && (p->c.lex.string < p->c.lex.end)) {
+        if (!have_err_msg(p)) {
+            cp_vchar_printf(&p->err->msg, "NUL characters are not supported.\n");
+        }
+        p->c.tok.type = T_ERROR;
+        return;
+    }
+
     /* by default, read a single character */
     if (!(p->c.lex.cur == (p->c.lex.cur & 127))) {
         if (!have_err_msg(p)) {
-- 
2.43.0


From 11070ee8d87b0c489cdfb39aa09b0b9f15a7ff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:11 +0000
Subject: [PATCH 53/63] fix: decode UTF-8 continuation bytes without their
 marker bits

---
 src/hob3lbase/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3lbase/utf8.c b/src/hob3lbase/utf8.c
index 6eb9603..9bbb3f0 100644
--- a/src/hob3lbase/utf8.c
+++ b/src/hob3lbase/utf8.c
@@ -53,7 +53,7 @@ static inline bool get_cont(unsigned *result, char const *start, cp_utf8_iter_t
         return false;
     }
     iter_advance(iter);
-    *result = c2;
+    *result = c2 & 0x3f;
     return true;
 }
 
-- 
2.43.0


From e7af0fbee5a47e6ba082937329c9265d8f9fd0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:11 +0000
Subject: [PATCH 54/63] fix: the end of an escaped string is not a character to
 advance over

---
 src/hob3lbase/utf8.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3lbase/utf8.c b/src/hob3lbase/utf8.c
index 9bbb3f0..7b3189f 100644
--- a/src/hob3lbase/utf8.c
+++ b/src/hob3lbase/utf8.c
@@ -147,6 +147,9 @@ extern unsigned cp_utf8_escaped_decode(cp_utf8_iter_t *iter)
     if (c1 == 0) {
         return 0;
     }
+    if (c1 == 0) {
+        return 0;
+    }
     if (c1 >= 0x80) {
         return cp_utf8_decode(iter);
     }
-- 
2.43.0


From 38b0325aae6ca3c26fd4ece6f48a2cae345af9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:44 +0000
Subject: [PATCH 55/63] fix: an XML comment may be followed by an end tag

---
 src/hob3l/xml-parse.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 4e14596..4658520 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -460,7 +460,7 @@ static bool parse_elem(
     ctxt_t *c);
 
 /**
- * This does not handle </ tokens: they cause errors here.
+ * This does not handle </ nor <! tokens: they cause errors here.
  */
 static bool parse_content(
     cp_xml_t **rp,
@@ -469,7 +469,6 @@ static bool parse_content(
 {
     *rp = NULL;
 
-again:
     /* EOF is OK, leaves *rp==NULL */
     if (p->cur == 0) {
         return true;
@@ -477,14 +476,6 @@ again:
 
     if (p->cur == '<') {
         TRY(lex_next(p));
-        /* comment */
-        if  (p->cur == '!') {
-            TRY(expect(p, "!--"));
-            TRY(skip_comment(p));
-            goto again;
-        }
-
-        /* element */
         return parse_elem(rp, p, c);
     }
 
@@ -502,6 +493,13 @@ static bool parse_content_list(
     char const *tag)
 {
     for (;;) {
+        /* comment */
+        if ((p->cur == '<') && (*p->str_next == '!')) {
+            TRY(expect(p, "<!--"));
+            TRY(skip_comment(p));
+            continue;
+        }
+
         /* end tag */
         if ((tag != NULL) && (p->cur == '<') && (*p->str_next == '/')) {
             TRY(lex_next(p) && lex_next(p));
-- 
2.43.0


From a9d26764c4893afed6860ee67e69420288e05b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:44 +0000
Subject: [PATCH 56/63] fix: white space around the = of an XML attribute

---
 src/hob3l/xml-parse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 4658520..7cbc708 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -383,6 +383,9 @@ static bool parse_attr(
     r->data = name;
     r->ns_prefix = nsp;
 
+    /* there may be white space around the = */
+    TRY(skip_space(p));
+
     /* if no = follows, then we assume x="x" */
     if (p->cur != '=') {
         cp_xml_t *v = CP_POOL_NEW(p->tmp, *v);
@@ -393,6 +396,7 @@ static bool parse_attr(
         return true;
     }
     TRY(lex_next(p));
+    TRY(skip_space(p));
 
     /* expect " or ' */
     unsigned delim = p->cur;
-- 
2.43.0


From 4011bc371cf6b285182468ac0ec40cf0f93a273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:45 +0000
Subject: [PATCH 57/63] fix: the XML namespace prefix 'xml' needs no
 declaration

---
 src/hob3l/xml-parse.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 7cbc708..5365d12 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -545,6 +545,12 @@ static bool find_ns(
         }
     }
 
+    /* this prefix needs no declaration */
+    if (strequ(ns_prefix, "xml")) {
+        *nsp = "http://www.w3.org/XML/1998/namespace";
+        return true;
+    }
+
     ERR(p, ns_prefix, "Namespace prefix '%s' not found.\n", ns_prefix);
     return true;
 }
-- 
2.43.0


From 0871d99956746b90fe38879e67eae16391b02049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:45 +0000
Subject: [PATCH 58/63] fix: XML comments may precede the DOCTYPE

---
 src/hob3l/xml-parse.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 5365d12..275c48f 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -458,6 +458,20 @@ static bool skip_comment(
     }
 }
 
+/**
+ * Skip white space and comments */
+static bool skip_misc(
+    parse_t *p)
+{
+    TRY(skip_space(p));
+    while ((p->cur == '<') && strpref(p->str_next, "!--")) {
+        TRY(expect(p, "<!--"));
+        TRY(skip_comment(p));
+        TRY(skip_space(p));
+    }
+    return true;
+}
+
 static bool parse_elem(
     cp_xml_t **rp,
     parse_t *p,
@@ -629,7 +643,7 @@ static bool parse_doc(
         TRY(parse_attr_list(p, c));
         TRY(expect(p, "?>"));
     }
-    TRY(skip_space(p));
+    TRY(skip_misc(p));
 
     /* parse <!DOCTYPE ...>; allow and ignore this */
     if ((p->cur == '<') && strpref(p->str_next, "!DOCTYPE")) {
-- 
2.43.0


From 9aad5285a7454c84df372796ce991a8b73e333b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:46 +0000
Subject: [PATCH 59/63] fix: XML end tags with non-ASCII names

---
 src/hob3l/xml-parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 275c48f..f7e65f1 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -227,8 +227,8 @@ static bool expect(
 {
     cp_loc_t loc = p->loc;
     char const *s_orig = s;
-    for (; *s; s++) {
-        if (p->cur != (unsigned char)*s) {
+    while (*s) {
+        if (p->cur != cp_utf8_take(&s)) {
             ERR(p, loc, "Expected '%s'", s_orig);
         }
         TRY(lex_next(p));
-- 
2.43.0


From 6a02aa68a1fe1ef4dc9154191d9d1134ef3eb232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:47 +0000
Subject: [PATCH 60/63] fix: XML character references must not wrap around

---
 src/hob3l/xml-parse.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index f7e65f1..481b299 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -252,7 +252,10 @@ static bool read_num(unsigned *np, parse_t *p, unsigned base)
         if (val >= base) {
             break;
         }
-        n = (n * base) + val;
+        /* stop counting when it is out of range (instead of wrapping around) */
+        if (n <= 0x10ffff) {
+            n = (n * base) + val;
+        }
         TRY(lex_next(p));
     }
     *np = n;
-- 
2.43.0


From 37bfb9a8127868ce5d1217a605ad580741048e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:47 +0000
Subject: [PATCH 61/63] fix: a NUL character must not end an XML document
 silently

---
 src/hob3l/xml-parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 481b299..eb23336 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -128,6 +128,9 @@ static bool lex_next(
         ERR(p, p->loc, "UTF-8 decoding error: %s\n", iter.error_msg);
     }
     p->str_next += iter.data - p->str_next;
+    if ((p->cur == 0) && (p->str_next < p->str_end)) {
+        ERR(p, p->loc, "NUL characters are not supported.\n");
+    }
     return true;
 }
 
-- 
2.43.0


From ab674e1c171e9da7daa9636cc1d7a55b132bd6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:57 +0000
Subject: [PATCH 62/63] fix: a hexadecimal escape must have all of its digits

---
 src/hob3lbase/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3lbase/utf8.c b/src/hob3lbase/utf8.c
index 7b3189f..7fdb013 100644
--- a/src/hob3lbase/utf8.c
+++ b/src/hob3lbase/utf8.c
@@ -190,7 +190,6 @@ extern unsigned cp_utf8_escaped_decode(cp_utf8_iter_t *iter)
     iter_advance(iter);
 
     while (len > 0) {
-        --len;
         uint8_t cx = iter_get(iter);
         if (cx == 0) {
             break;
@@ -201,6 +200,7 @@ extern unsigned cp_utf8_escaped_decode(cp_utf8_iter_t *iter)
         }
         iter_advance(iter);
         code = (code * base) + val;
+        --len;
     }
     if (len > 0) {
         iter_error(iter, start, "premature end of hexadecimal escape");
-- 
2.43.0


From 3fa6a9277a851b97c7a74e3e7de8202463ce3aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:24 +0000
Subject: [PATCH 63/63] fix: say so when the points of an SVG polygon or
 polyline are followed by something else

---
 src/hob3l/svg-parse.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 388504b..a9e89ad 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1741,6 +1741,18 @@ static bool csg2_from_line(
     return true;
 }
 
+static bool str_points(
+    path_t *q,
+    char const **sp)
+{
+    TRY(str_path_coord1(q, sp, ABS, path_move, path_line));
+    if (!s_end(sp)) {
+        WARN(q->p, *sp, "Coordinates expected.");
+        return false;
+    }
+    return true;
+}
+
 static bool csg2_from_polyline(
     cp_v_obj_p_t *r,
     ctxt_t const *p,
@@ -1749,8 +1761,7 @@ static bool csg2_from_polyline(
 {
     char const *s = TRY(s_attr_str(x, "points"));
     path_t q = path_new(r, p, c);
-    TRY(str_path_coord1(&q, &s, ABS, path_move, path_line));
-    TRY(s_end(&s));
+    TRY(str_points(&q, &s));
     path_fini(&q, s);
     return true;
 }
@@ -1763,8 +1774,7 @@ static bool csg2_from_polygon(
 {
     char const *s = TRY(s_attr_str(x, "points"));
     path_t q = path_new(r, p, c);
-    TRY(str_path_coord1(&q, &s, ABS, path_move, path_line));
-    TRY(s_end(&s));
+    TRY(str_points(&q, &s));
     path_close(&q, s);
     path_fini(&q, s);
     return true;
-- 
2.43.0

