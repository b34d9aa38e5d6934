From f0e89a79bf5525558a2b1e59fe6006de3eb347ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 01/90] fix: rex: release the dropped fragment of a {0}
 repetition

---
 rex/rexcompiler.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index 8e465c6..fd5320d 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -461,6 +461,7 @@ static int rex_compiler_qfactor(rexcompiler_t *co, rexdb_t *rexdb)
 			 * Special case
 			 */
 			frag = FPOP(co);
+			rex_fragment_destroy(frag);
 			for (i = nstates; i < r_array_length(rexdb->states); i++) {
 				srcstate = rex_db_getstate(rexdb, i);
 				rex_state_destroy(srcstate);
-- 
2.43.0


From a9b702791f0f31760eca57239859db8b729878bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 02/90] fix: rex: do not unescape the token that follows a {0}
 repetition

---
 rex/rexcompiler.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index fd5320d..d459bed 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -468,7 +468,6 @@ static int rex_compiler_qfactor(rexcompiler_t *co, rexdb_t *rexdb)
 			}
 			r_array_setlength(rexdb->states, nstates);
 			srcstate = rex_db_getstate(rexdb, rex_db_createstate(rexdb, REX_STATETYPE_NONE));
-			rex_compiler_adjustescapedtoken(co);
 			rex_state_addtransition_e(srcstate, -1);
 			frag = rex_fragment_create(srcstate);
 			FPUSH(co, frag);
-- 
2.43.0


From 51bbfa78c33e24af8e6b71bfb2ebf77585498e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 03/90] fix: rex: keep the counts of an outer repetition while
 its nested repetition is compiled

---
 rex/rexcompiler.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index d459bed..d6c561e 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -480,26 +480,28 @@ static int rex_compiler_qfactor(rexcompiler_t *co, rexdb_t *rexdb)
 		}
 		do {
 			size_t count;
+			size_t fromcount = co->fromcount;	/* a nested repetition overwrites co->fromcount and co->tocount */
+			size_t tocount = co->tocount;
 			const char *saved_start = co->start;
 			const char *saved_end = co->end;
 			const char *saved_ptr = co->ptr;
 			const char *saved_tokenptr = co->tokenptr;
 			int saved_token = co->token;
-			for (count = 1; count < co->tocount; count++) {
+			for (count = 1; count < tocount; count++) {
 				co->start = fstart;
 				co->end = fend;
 				co->ptr = fstart;
 				rex_compiler_getnbtok(co);
 				rex_compiler_catexpression(co, rexdb);
 				frag2 = FPOP(co);
-				if (co->tocount == (size_t)-1 && count >= co->fromcount) {
+				if (tocount == (size_t)-1 && count >= fromcount) {
 					frag2 = rex_fragment_mop(rexdb, frag2);
 					frag1 = FPOP(co);
 					frag1 = rex_fragment_cat(rexdb, frag1, frag2);
 					FPUSH(co, frag1);
 					break;
 				}
-				if (count >= co->fromcount) {
+				if (count >= fromcount) {
 					frag2 = rex_fragment_opt(rexdb, frag2);
 				}
 				frag1 = FPOP(co);
-- 
2.43.0


From 86b733a79c4c00ca244804e6875222ffdac14665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 04/90] fix: rex: match bytes above 127 as unsigned characters
 in byte mode

---
 rex/rexregex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rexregex.c b/rex/rexregex.c
index a2fb8fa..644f6ac 100644
--- a/rex/rexregex.c
+++ b/rex/rexregex.c
@@ -172,7 +172,7 @@ static int rex_regex_match_byte(rexregex_t *regex, const char *start, const char
 	rexdfs_t *s;
 
 	while (input < end) {
-		wc = *input;
+		wc = (unsigned char)*input;
 		REX_DFA_NEXT(dfa, nstate, wc, &nstate);
 		if (nstate == 0)
 			break;
-- 
2.43.0


From 04f5bc36fd2895b0432c5bd3e3348a208f3e56f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 05/90] fix: rex: accept characters whose low byte equals an
 operator character

---
 rex/rexcompiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index d6c561e..0e56743 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -408,7 +408,7 @@ static int rex_compiler_qfactor(rexcompiler_t *co, rexdb_t *rexdb)
 	rexstate_t *srcstate;
 	size_t nstates, i;
 
-	if (strchr("{}*?+]\n\r)", co->token)) {
+	if (co->token < 0x80 && strchr("{}*?+]\n\r)", co->token)) {
 		/*
 		 * Unexpected char.
 		 */
-- 
2.43.0


From 533300fd7dd7ddd012d182705510b0e3e78b9553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 06/90] fix: rex: do not pass wide characters to isdigit and
 isxdigit

---
 rex/rexcompiler.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index 0e56743..364a5bf 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -70,6 +70,18 @@ static int rex_compiler_isspace(int c)
 }
 
 
+static int rex_compiler_isdigit(int c)
+{
+	return (c >= 0 && c < 0x80) ? isdigit(c) : 0;
+}
+
+
+static int rex_compiler_isxdigit(int c)
+{
+	return (c >= 0 && c < 0x80) ? isxdigit(c) : 0;
+}
+
+
 static int rex_compiler_isblank(rexcompiler_t *co, int c)
 {
 	return r_strchr(co->blankchars, c) ? 1 : 0;
@@ -226,10 +238,10 @@ int rex_compiler_numerictoken(rexcompiler_t *co, rexdb_t *rexdb)
 		} else {
 			base = 8;
 		}
-	} else if (!isdigit(co->token)) {
+	} else if (!rex_compiler_isdigit(co->token)) {
 		return -1;
 	}
-	while ((base == 16 && isxdigit(co->token)) || (base == 8 && isdigit(co->token) && co->token != '8' && co->token != '9') || isdigit(co->token)) {
+	while ((base == 16 && rex_compiler_isxdigit(co->token)) || (base == 8 && rex_compiler_isdigit(co->token) && co->token != '8' && co->token != '9') || rex_compiler_isdigit(co->token)) {
 		if (i >= REX_CONV_BUFSIZE)
 			return -1;
 		convbuf[i++] = co->token;
@@ -361,9 +373,9 @@ static int rex_compiler_parsecount(rexcompiler_t *co, rexdb_t *rexdb)
 	int i = 0;
 
 	rex_compiler_getnbtok(co);		/* eat '{' */
-	if (!isdigit(co->token))
+	if (!rex_compiler_isdigit(co->token))
 		return -1;
-	for (i = 0; isdigit(co->token); i++) {
+	for (i = 0; rex_compiler_isdigit(co->token); i++) {
 		if (i >= REX_CONV_BUFSIZE)
 			return -1;
 		convbuf[i] = co->token;
@@ -379,8 +391,8 @@ static int rex_compiler_parsecount(rexcompiler_t *co, rexdb_t *rexdb)
 	if (co->token == ',') {
 		rex_compiler_getnbtok(co);		/* eat ',' */
 		co->tocount = (size_t)-1;
-		if (isdigit(co->token)) {
-			for (i = 0; isdigit(co->token); i++) {
+		if (rex_compiler_isdigit(co->token)) {
+			for (i = 0; rex_compiler_isdigit(co->token); i++) {
 				if (i >= REX_CONV_BUFSIZE)
 					return -1;
 				convbuf[i] = co->token;
-- 
2.43.0


From 1fbd20883f897eac193687f16001bed759d3938f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 07/90] fix: rex: reject an expression that ends inside an
 escape sequence

---
 rex/rexcompiler.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index 364a5bf..d1ce7ee 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -279,6 +279,8 @@ int rex_compiler_charclass(rexcompiler_t *co, rexdb_t *rexdb)
 			high = low = co->numtoken;
 		} else {
 			rex_compiler_adjustescapedtoken(co);
+			if (co->token == REX_TOKEN_EOF)
+				return -1;
 			high = low = co->token;
 			rex_compiler_gettok(co);
 		}
@@ -299,6 +301,8 @@ int rex_compiler_charclass(rexcompiler_t *co, rexdb_t *rexdb)
 				high = co->numtoken;
 			} else {
 				rex_compiler_adjustescapedtoken(co);
+				if (co->token == REX_TOKEN_EOF)
+					return -1;
 				high = co->token;
 				rex_compiler_gettok(co);
 			}
@@ -356,6 +360,8 @@ static int rex_compiler_factor(rexcompiler_t *co, rexdb_t *rexdb)
 	} else {
 		srcstate = rex_db_getstate(rexdb, rex_db_createstate(rexdb, REX_STATETYPE_NONE));
 		rex_compiler_adjustescapedtoken(co);
+		if (co->token == REX_TOKEN_EOF)
+			return -1;
 		rex_state_addtransition(srcstate, co->token, co->token, -1);
 		frag = rex_fragment_create(srcstate);
 		FPUSH(co, frag);
-- 
2.43.0


From c033a7767f4ad824e6ecb93a639153d4ba79fba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 08/90] fix: rex: reject an empty branch instead of popping an
 empty fragment stack

---
 rex/rexcompiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index d1ce7ee..c657d74 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -551,7 +551,7 @@ static int rex_compiler_catexpression(rexcompiler_t *co, rexdb_t *rexdb)
 		case REX_TOKEN_EOF:
 		case '|':
 		case ')':
-			return 0;
+			return nfactors ? 0 : -1;	/* an empty branch leaves no fragment on the stack */
 		}
 		if (rex_compiler_qfactor(co, rexdb) < 0)
 			return -1;
-- 
2.43.0


From b0e1ad636602aa64807390ab4c680e2771544b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 09/90] fix: rex: reject an unbalanced closing parenthesis

---
 rex/rexcompiler.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index c657d74..df9cfbb 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -610,6 +610,8 @@ long rex_compiler_expression(rexcompiler_t *co, rexdb_t *rexdb, const char *str,
 	rex_compiler_getnbtok(co);
 	if (rex_compiler_altexpression(co, rexdb) < 0)
 		goto error;
+	if (co->token != REX_TOKEN_EOF)		/* unbalanced ')' */
+		goto error;
 	frag1 = FPOP(co);
 	frag2 = rex_fragment_create(rex_db_getstate(rexdb, rex_db_createstate(rexdb, REX_STATETYPE_ACCEPT)));
 	rex_state_setuserdata(REX_FRAG_STATE(frag2), userdata);
-- 
2.43.0


From 63289de921fd09f66eeedc505d9b7d000ed7a0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 10/90] fix: rex: do not return a destroyed regex object for a
 bad expression

---
 rex/rexregex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rex/rexregex.c b/rex/rexregex.c
index 644f6ac..4cca65a 100644
--- a/rex/rexregex.c
+++ b/rex/rexregex.c
@@ -81,7 +81,8 @@ rexregex_t *rex_regex_create(const char *str, unsigned int size)
 	rexregex_t *regex;
 
 	regex = (rexregex_t*)r_object_create(sizeof(*regex));
-	rex_regex_init((robject_t*)regex, R_OBJECT_REXREGEX, rex_regex_cleanup, NULL, str, size);
+	if (!rex_regex_init((robject_t*)regex, R_OBJECT_REXREGEX, rex_regex_cleanup, NULL, str, size))
+		return NULL;
 	return regex;
 }
 
-- 
2.43.0


From f8e0474a7752a424f89f4cab34f75093f258ba61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 11/90] fix: rex: keep transitions sorted when a range is given
 high-to-low

---
 rex/rextransition.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rextransition.c b/rex/rextransition.c
index 5d73f7c..449605a 100644
--- a/rex/rextransition.c
+++ b/rex/rextransition.c
@@ -86,7 +86,7 @@ rex_transition_t *rex_transitions_add(rarray_t *trans, rexchar_t c1, rexchar_t c
 	while (max > min) {
 		mid = (min + max)/2;
 		t = (rex_transition_t *)r_array_slot(trans, mid);
-		if (c1 >= t->lowin) {
+		if (ntrans.lowin >= t->lowin) {
 			min = mid + 1;
 		} else {
 			max = mid;
-- 
2.43.0


From 368fd57a873f4ce31dda21efc8785a39d648cef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 12/90] fix: rpa: first character bitmaps must include what
 follows nested optional expressions and loop references

---
 rpa/rpabitmap.c | 43 ++++++++++++++++++++++++++++++++++++++++---
 rpa/rpabitmap.h |  1 +
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/rpa/rpabitmap.c b/rpa/rpabitmap.c
index 0f6eae8..15d19f7 100644
--- a/rpa/rpabitmap.c
+++ b/rpa/rpabitmap.c
@@ -26,6 +26,38 @@
 #include "rpa/rpastatpriv.h"
 #include "rpa/rpacompiler.h"
 
+
+/*
+ * Check if the production can succeed without consuming any input.
+ */
+int rpa_bitmap_isoptional(rarray_t *records, long rec)
+{
+	rparecord_t *record = rpa_record_get(records, rec);
+	long child;
+
+	if (!record)
+		return 0;
+	if (record->usertype & RPA_MATCH_OPTIONAL)
+		return 1;
+	if (record->usertype & RPA_MATCH_MULTIPLE)
+		return 0;
+	switch (record->ruleuid) {
+	case RPA_PRODUCTION_MINOP:
+		return rpa_bitmap_isoptional(records, rpa_recordtree_firstchild(records, rec, RPA_RECORD_END));
+	case RPA_PRODUCTION_REQOP:
+	case RPA_PRODUCTION_BRACKETEXP:
+		for (child = rpa_recordtree_firstchild(records, rec, RPA_RECORD_END); child >= 0; child = rpa_recordtree_next(records, child, RPA_RECORD_END)) {
+			if (!rpa_bitmap_isoptional(records, child))
+				return 0;
+		}
+		return 1;
+	default:
+		break;
+	};
+	return 0;
+}
+
+
 static long rpa_bitmap_set_startrec(rarray_t *records, long rec, rpabitmap_t bitmap)
 {
 	rparecord_t *record = rpa_record_get(records, rpa_recordtree_get(records, rec, RPA_RECORD_START));
@@ -150,7 +182,7 @@ static long rpa_bitmap_set_namedrule(rarray_t *records, rparecord_t *record, lon
 		for (child = rpa_recordtree_next(records, child, RPA_RECORD_END); child >= 0; child = rpa_recordtree_next(records, child, RPA_RECORD_END)) {
 			rparecord_t *childrecord = rpa_record_get(records, child);
 			RPA_BITMAP_ORBITS(RPA_RECORD2BITMAP(record), RPA_RECORD2BITMAP(childrecord));
-			if (!(childrecord->usertype & RPA_MATCH_OPTIONAL))
+			if (!rpa_bitmap_isoptional(records, child))
 				break;
 		}
 	}
@@ -166,7 +198,7 @@ static long rpa_bitmap_set_expression(rarray_t *records, rparecord_t *record, lo
 		for (child = rpa_recordtree_firstchild(records, rec, RPA_RECORD_END); child >= 0; child = rpa_recordtree_next(records, child, RPA_RECORD_END)) {
 			rparecord_t *childrecord = rpa_record_get(records, child);
 			RPA_BITMAP_ORBITS(RPA_RECORD2BITMAP(record), RPA_RECORD2BITMAP(childrecord));
-			if (!(childrecord->usertype & RPA_MATCH_OPTIONAL))
+			if (!rpa_bitmap_isoptional(records, child))
 				break;
 		}
 	}
@@ -198,6 +230,11 @@ static long rpa_bitmap_set_minop(rarray_t *records, rparecord_t *record, long re
 			rparecord_t *childrecord = rpa_record_get(records, child);
 			RPA_BITMAP_SETVAL(RPA_RECORD2BITMAP(record), RPA_BITMAP_GETVAL(RPA_RECORD2BITMAP(childrecord)));
 		}
+		/*
+		 * It can succeed without looking at the input.
+		 */
+		if (rpa_bitmap_isoptional(records, rec))
+			RPA_BITMAP_SETALL(RPA_RECORD2BITMAP(record));
 	}
 	return 0;
 }
@@ -265,7 +302,7 @@ static long rpa_bitmap_set_numrng(rarray_t *records, rparecord_t *record, long r
 static long rpa_bitmap_set_ref(rarray_t *records, rparecord_t *record, long rec, rpointer userdata)
 {
 	rpa_bitmapcompiler_t *bc = (rpa_bitmapcompiler_t*)userdata;
-	if ((record->type & RPA_RECORD_END) && (record->usertype & RPA_LOOP_PATH) == 0) {
+	if (record->type & RPA_RECORD_END) {
 		long child = rpa_recordtree_firstchild(records, rec, RPA_RECORD_END);
 		if (child >= 0) {
 			rparecord_t *childrecord = rpa_record_get(records, child);
diff --git a/rpa/rpabitmap.h b/rpa/rpabitmap.h
index 7bb3efe..5ba6075 100644
--- a/rpa/rpabitmap.h
+++ b/rpa/rpabitmap.h
@@ -63,6 +63,7 @@ typedef struct rpa_bitmapcompiler_s {
 } rpa_bitmapcompiler_t;
 
 long rpa_bitmap_set(rarray_t *records, long rec, rpointer userdata);
+int rpa_bitmap_isoptional(rarray_t *records, long rec);
 
 
 #ifdef __cplusplus
-- 
2.43.0


From c8e6dfc0052a9c708c81c0d7a20b619085d53ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 13/90] fix: rpa: a reference that follows a consuming
 expression is not left recursion

---
 rpa/rpadbex.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 83347c6..de001dc 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1166,8 +1166,14 @@ static int rpa_parseinfo_loopdetect_do(rpadbex_t *dbex, long parent, long loopto
 		}
 
 		if ((prec->usertype & RPA_MATCH_OPTIONAL) == 0 && (prec->ruleuid == RPA_PRODUCTION_CREF || prec->ruleuid == RPA_PRODUCTION_AREF ||
-				prec->ruleuid == RPA_PRODUCTION_CHAR || prec->ruleuid == RPA_PRODUCTION_CLS || prec->ruleuid == RPA_PRODUCTION_SPECIALCHAR))
-			break;
+				prec->ruleuid == RPA_PRODUCTION_CHAR || prec->ruleuid == RPA_PRODUCTION_CLS || prec->ruleuid == RPA_PRODUCTION_SPECIALCHAR ||
+				prec->ruleuid == RPA_PRODUCTION_NOTOP || prec->ruleuid == RPA_PRODUCTION_BRACKETEXP)) {
+			/*
+			 * The next sibling is not at the same position, unless this one can match nothing.
+			 */
+			if (!rpa_bitmap_isoptional(dbex->records, rpa_recordtree_get(dbex->records, i, RPA_RECORD_END)))
+				break;
+		}
 
 	}
 
-- 
2.43.0


From 8b2f8a5077124f8f942d8ca6e4dfd18bd751cc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 14/90] fix: rpa: stop growing a left recursive match that gets
 no longer and use it only where the loop starts

---
 rpa/rpacompiler.c | 26 ++++++++++++++------------
 rpa/rpadbex.c     | 11 +++++++++++
 rpa/rpavm.h       |  1 +
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/rpa/rpacompiler.c b/rpa/rpacompiler.c
index 5fd7847..cecf90e 100644
--- a/rpa/rpacompiler.c
+++ b/rpa/rpacompiler.c
@@ -364,9 +364,11 @@ int rpa_compiler_loop_begin(rpa_compiler_t *co, const char *name, unsigned int n
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_CLR, R3, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_CLR, R0, XX, XX, 0));
 	exp.loopidx = rpa_codegen_add_numlabel_s(co->cg, "__loop", exp.start);
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_PUSH, R_LTP, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_PUSHM, DA, XX, XX, BIT(R_REC)|BIT(R_LOO)|BIT(R_TOP)|BIT(LR)));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_PUSH, R0, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_LOO, R3, XX, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_LTP, R_TOP, XX, 0));
 	if (exp.rulepref && (exp.rulepref->flags & RPA_RFLAG_EMITRECORD)) {
 		rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BLOB, exp.dataidx, rvm_asm(RPA_EMITSTART, DA, R_TOP, XX, 0));
 	}
@@ -385,21 +387,19 @@ int rpa_compiler_loop_end(rpa_compiler_t *co)
 {
 	rpa_ruledef_t exp = r_array_pop(co->expressions, rpa_ruledef_t);
 
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R3, R_LOO, XX, 0));		// Save LOO to R3 before restoring the old one
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_SUB, R0, R_TOP, R_LTP, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_CMP, R0, R_LOO, XX, 0));
+	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, exp.endidx, rvm_asm(RVM_BLEQ, DA, XX, XX, 0));	// Not longer than the last time
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R0, XX, XX, 0));		// Pop the accumulated ret, although ignored here
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POPM, DA, XX, XX, BIT(R1)|BIT(R_LOO)|BIT(R_OTP)|BIT(LR)));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R_LTP, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_SUBS, R0, R_TOP, R_OTP, 0));
-	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, exp.failidx, rvm_asm(RVM_BEQ, DA, XX, XX, 0));	// ------------- R_TOP is the same
-	if (exp.rulepref && (exp.rulepref->flags & RPA_RFLAG_EMITRECORD)) {                                            //       |
-		rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BLOB, exp.dataidx, rvm_asm(RPA_EMITEND, DA, R_OTP, R0, 0)); //      |
+	if (exp.rulepref && (exp.rulepref->flags & RPA_RFLAG_EMITRECORD)) {
+		rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BLOB, exp.dataidx, rvm_asm(RPA_EMITEND, DA, R_OTP, R0, 0));
 	}
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R3, R0, XX, 0));                                                //          |
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_TOP, R_OTP, XX, 0));                                          //          |
-	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, exp.loopidx, rvm_asm(RVM_B, DA, XX, XX, 0));        //          |
-	rvm_codegen_redefinelabel_default(co->cg, exp.failidx);	                                                    //          |
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_REC, R1, XX, 0));	         //        <-------------------------------------
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOVS, R0, DA, XX, -1));
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_BX, LR, XX, XX, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R3, R0, XX, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_TOP, R_OTP, XX, 0));
+	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, exp.loopidx, rvm_asm(RVM_B, DA, XX, XX, 0));
 
 	/*
 	 *  END FAILED:
@@ -408,6 +408,7 @@ int rpa_compiler_loop_end(rpa_compiler_t *co)
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R3, R_LOO, XX, 0));		// Save LOO to R3 before restoring the old one
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R0, XX, XX, 0));		// Pop the accumulated ret, use it to save the status for return
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POPM, DA, XX, XX, BIT(R_REC)|BIT(R_LOO)|BIT(R_TOP)|BIT(LR)));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R_LTP, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_CMP, R0, DA, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_BGRE, DA, XX, XX, 3));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOVS, R0, DA, XX, -1));
@@ -719,6 +720,8 @@ int rpa_compiler_nonloopybranch_begin(rpa_compiler_t *co, unsigned int flags)
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_PUSH, R_REC, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_PUSH, R_TOP, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_PUSH, LR, XX, XX, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_CMP, R_TOP, R_LTP, XX, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_BNEQ, DA, XX, XX, 3));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_CMP, R_LOO, DA, XX, 0));
 	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, exp.endidx, rvm_asm(RVM_BGRE, DA, XX, XX, 0));
 	r_array_add(co->expressions, &exp);
@@ -735,7 +738,6 @@ int rpa_compiler_nonloopybranch_end(rpa_compiler_t *co)
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R1, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R0, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_SUBS, R0, R_TOP, R1, 0));
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_LOO, R0, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_BX, LR, XX, XX, 0));
 	rvm_codegen_redefinelabel_default(co->cg, exp.endidx);
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, LR, XX, XX, 0));
diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index de001dc..0b67353 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -994,6 +994,7 @@ static int rpa_dbex_rh_aref(rpadbex_t *dbex, long rec)
 	rpa_ruleinfo_t *info;
 	rarray_t *records = dbex->records;
 	rparecord_t *prec;
+	unsigned long looppos, endpos;
 
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_START);
 	prec = rpa_dbex_record(dbex, rec);
@@ -1011,6 +1012,15 @@ static int rpa_dbex_rh_aref(rpadbex_t *dbex, long rec)
 			RPA_DBEX_SETERRINFO_NAME(dbex, name, namesize);
 			return -1;
 		}
+		/*
+		 * It is part of the loop only at the position where the loop starts,
+		 * otherwise it is an ordinary reference.
+		 */
+		rvm_codegen_addins(dbex->co->cg, rvm_asm(RVM_CMP, R_TOP, R_LTP, XX, 0));
+		looppos = rvm_codegen_addins(dbex->co->cg, rvm_asm(RVM_BEQ, DA, XX, XX, 0));
+		rpa_compiler_reference(dbex->co, name, namesize, (prec->usertype & RPA_MATCH_MASK));
+		endpos = rvm_codegen_addins(dbex->co->cg, rvm_asm(RVM_B, DA, XX, XX, 0));
+		rvm_codegen_replaceins(dbex->co->cg, looppos, rvm_asm(RVM_BEQ, DA, XX, XX, rvm_codegen_getcodesize(dbex->co->cg) - looppos));
 		if (rpa_dbex_findinlined(dbex, info->startrec)) {
 			rpa_dbex_rh_loopref(dbex, prec);
 		} else {
@@ -1032,6 +1042,7 @@ static int rpa_dbex_rh_aref(rpadbex_t *dbex, long rec)
 				rpa_dbex_playrecord(dbex, info->startrec);
 			}
 		}
+		rvm_codegen_replaceins(dbex->co->cg, endpos, rvm_asm(RVM_B, DA, XX, XX, rvm_codegen_getcodesize(dbex->co->cg) - endpos));
 	} else {
 		rpa_compiler_reference(dbex->co, name, namesize, (prec->usertype & RPA_MATCH_MASK));
 	}
diff --git a/rpa/rpavm.h b/rpa/rpavm.h
index e120b6d..082af16 100644
--- a/rpa/rpavm.h
+++ b/rpa/rpavm.h
@@ -43,6 +43,7 @@ extern "C" {
 #define RPA_RFLAG_ABORTONFAIL (1 << 2)
 #define RPA_RFLAG_LEFTRECURSION (1<<3)
 
+#define R_LTP (TP - 4)
 #define R_REC (TP - 3)
 #define R_LOO (TP - 2)
 #define R_OTP (TP - 1)
-- 
2.43.0


From 36a031cc9f12a835b8c83f0db4da28bbf9690737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 15/90] fix: rpa: place the records of a left recursive match
 where it is referred to

---
 rpa/rpacompiler.c | 20 ++++++++++--------
 rpa/rpadbex.c     |  1 +
 rpa/rpastat.c     | 52 -----------------------------------------------
 rpa/rpavm.c       | 43 +++++++++++++++++++++++++++++++++++----
 rpa/rpavm.h       |  4 ++++
 5 files changed, 55 insertions(+), 65 deletions(-)

diff --git a/rpa/rpacompiler.c b/rpa/rpacompiler.c
index cecf90e..02935c8 100644
--- a/rpa/rpacompiler.c
+++ b/rpa/rpacompiler.c
@@ -361,14 +361,16 @@ int rpa_compiler_loop_begin(rpa_compiler_t *co, const char *name, unsigned int n
 	exp.againidx = rpa_codegen_invalid_add_numlabel_s(co->cg, "__again", exp.start);
 	exp.dataidx = rpa_compiler_addblob(co, ruleid, ruleuid, flags, name, namesize);
 
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_CLR, R3, XX, XX, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_CLR, R2, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_CLR, R0, XX, XX, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_PUSHM, DA, XX, XX, BIT(R_LRE)|BIT(R_LRB)|BIT(R_LTP)));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_LRB, R_REC, XX, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_LTP, R_TOP, XX, 0));
 	exp.loopidx = rpa_codegen_add_numlabel_s(co->cg, "__loop", exp.start);
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_PUSH, R_LTP, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_PUSHM, DA, XX, XX, BIT(R_REC)|BIT(R_LOO)|BIT(R_TOP)|BIT(LR)));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_PUSH, R0, XX, XX, 0));
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_LOO, R3, XX, 0));
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_LTP, R_TOP, XX, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_LOO, R2, XX, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_LRE, R_REC, XX, 0));
 	if (exp.rulepref && (exp.rulepref->flags & RPA_RFLAG_EMITRECORD)) {
 		rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BLOB, exp.dataidx, rvm_asm(RPA_EMITSTART, DA, R_TOP, XX, 0));
 	}
@@ -392,12 +394,12 @@ int rpa_compiler_loop_end(rpa_compiler_t *co)
 	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, exp.endidx, rvm_asm(RVM_BLEQ, DA, XX, XX, 0));	// Not longer than the last time
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R0, XX, XX, 0));		// Pop the accumulated ret, although ignored here
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POPM, DA, XX, XX, BIT(R1)|BIT(R_LOO)|BIT(R_OTP)|BIT(LR)));
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R_LTP, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_SUBS, R0, R_TOP, R_OTP, 0));
 	if (exp.rulepref && (exp.rulepref->flags & RPA_RFLAG_EMITRECORD)) {
 		rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BLOB, exp.dataidx, rvm_asm(RPA_EMITEND, DA, R_OTP, R0, 0));
 	}
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R3, R0, XX, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RPA_LOOPREPLACE, R_LRB, R_LRE, XX, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R2, R0, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_TOP, R_OTP, XX, 0));
 	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, exp.loopidx, rvm_asm(RVM_B, DA, XX, XX, 0));
 
@@ -405,10 +407,10 @@ int rpa_compiler_loop_end(rpa_compiler_t *co)
 	 *  END FAILED:
 	 */
 	rvm_codegen_redefinelabel_default(co->cg, exp.endidx);
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R3, R_LOO, XX, 0));		// Save LOO to R3 before restoring the old one
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R2, R_LOO, XX, 0));		// Save LOO to R2 before restoring the old one
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R0, XX, XX, 0));		// Pop the accumulated ret, use it to save the status for return
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POPM, DA, XX, XX, BIT(R_REC)|BIT(R_LOO)|BIT(R_TOP)|BIT(LR)));
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R_LTP, XX, XX, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_POPM, DA, XX, XX, BIT(R_LRE)|BIT(R_LRB)|BIT(R_LTP)));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_CMP, R0, DA, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_BGRE, DA, XX, XX, 3));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOVS, R0, DA, XX, -1));
@@ -417,7 +419,7 @@ int rpa_compiler_loop_end(rpa_compiler_t *co)
 	} else {
 		rvm_codegen_addins(co->cg, rvm_asm(RVM_BX, LR, XX, XX, 0));
 	}
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_ADD, R_TOP, R_TOP, R3, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_ADD, R_TOP, R_TOP, R2, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_BX, LR, XX, XX, 0));
 	return 0;
 }
diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 0b67353..33077bd 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -980,6 +980,7 @@ static void rpa_dbex_rh_loopref(rpadbex_t *dbex, rparecord_t *prec)
 	rvm_codegen_addins(dbex->co->cg, rvm_asm(RVM_BGRE, DA, XX, XX, 3));
 	rvm_codegen_addins(dbex->co->cg, rvm_asm(RVM_MOVS, R0, DA, XX, -1));
 	rvm_codegen_index_addrelocins(dbex->co->cg, RVM_RELOC_BRANCH, RPA_COMPILER_CURRENTEXP(dbex->co)->endidx, rvm_asm(RVM_BLES, DA, XX, XX, 0));
+	rvm_codegen_addins(dbex->co->cg, rvm_asm(RPA_LOOPRECORDS, R_LRB, R_LRE, XX, 0));
 	rvm_codegen_addins(dbex->co->cg, rvm_asm(RVM_ADD, R_TOP, R_TOP, R_LOO, 0));
 	rvm_codegen_addins(dbex->co->cg, rvm_asm(RVM_MOVS, R0, R_LOO, XX, 0));
 	rvm_codegen_index_addrelocins(dbex->co->cg, RVM_RELOC_BRANCH, RPA_COMPILER_CURRENTEXP(dbex->co)->endidx, rvm_asm(RVM_BLES, DA, XX, XX, 0));
diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index 6e7f10f..cc0c1dd 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -146,56 +146,6 @@ long rpa_stat_exec(rpastat_t *stat, rvm_asmins_t *prog, ruword off, unsigned int
 	return ret;
 }
 
-static void rpa_stat_normalizeleftrecursion(rpastat_t *stat, rarray_t *records)
-{
-	rparecord_t *srec, *erec;
-	long i, temp_start, strayrecs_start, strayrecs_size, strayrecs_end;
-	long size = r_array_length(records);
-
-	for (i = 1; i < size; i++) {
-		srec = (rparecord_t *) r_array_slot(records, i);
-		if ((srec->usertype & RPA_LOOP_PATH) && (srec->type & RPA_RECORD_START)) {
-			erec = rpa_record_get(records, i - 1);
-			if (erec && (erec->input >= srec->input) && (erec->input + erec->inputsiz <= srec->input + srec->inputsiz) && (erec->type & RPA_RECORD_END)) {
-				long ssize = 0, j;
-				strayrecs_end = i - 1;
-				strayrecs_start = rpa_recordtree_get(records, strayrecs_end, RPA_RECORD_START);
-				for (temp_start = rpa_recordtree_prev(records, strayrecs_start, RPA_RECORD_START); temp_start >= 0;
-					temp_start = rpa_recordtree_prev(records, strayrecs_start, RPA_RECORD_START)) {
-					erec = rpa_record_get(records, temp_start);
-					if (erec && (erec->input >= srec->input) && (erec->input + erec->inputsiz <= srec->input + srec->inputsiz)) {
-						strayrecs_start = temp_start;
-						r_printf("----> strayrecs_start = %ld\n", strayrecs_start);
-						continue;
-					}
-					break;
-				}
-				strayrecs_size = strayrecs_end - strayrecs_start + 1;
-
-				for (j = 0; j < size; j++) {
-					srec = (rparecord_t *) r_array_slot(records, i + j);
-					if (!(srec->usertype & RPA_LOOP_PATH) || !(srec->type & RPA_RECORD_START)) {
-						break;
-					}
-					ssize++;
-				}
-				r_array_setlength(records, size + ssize);
-				rpa_recordtree_move(records, size, i, ssize);
-				rpa_recordtree_move(records, strayrecs_start + ssize, strayrecs_start, strayrecs_size);
-				rpa_recordtree_move(records, strayrecs_start, size, ssize);
-				r_array_setlength(records, size);
-			}
-
-		}
-
-	}
-
-	for (i = 0; i < size; i++) {
-		erec = (rparecord_t *) r_array_slot(records, i);
-		erec->usertype = 0;
-	}
-}
-
 
 static long rpa_stat_exec_rid(rpastat_t *stat, rparule_t rid, unsigned int encoding, const char *input, const char *start, const char *end, rarray_t *records)
 {
@@ -221,8 +171,6 @@ static long rpa_stat_exec_rid(rpastat_t *stat, rparule_t rid, unsigned int encod
 	if (topsiz <= 0)
 		return 0;
 	ptp = &stat->instack[topsiz];
-	if (records)
-		rpa_stat_normalizeleftrecursion(stat, records);
 	return (long)(ptp->input - input);
 }
 
diff --git a/rpa/rpavm.c b/rpa/rpavm.c
index 43b9bd3..e7eaae2 100644
--- a/rpa/rpavm.c
+++ b/rpa/rpavm.c
@@ -335,8 +335,6 @@ static void rpavm_swi_emitstart(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	rec->input = stat->instack[tp].input;
 	rec->inputoff = (unsigned long)(stat->instack[tp].input - stat->start);
 	rec->inputsiz = 0;
-	if (ruledata->flags & RPA_RFLAG_LEFTRECURSION)
-		rec->usertype = RPA_LOOP_PATH;
 }
 
 
@@ -372,8 +370,6 @@ static void rpavm_swi_emitend(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	rec->inputoff = (unsigned long)(stat->instack[tp].input - stat->start);
 	startrec->size = (ruint32)tplen;
 	startrec->inputsiz = rec->inputsiz;
-	if (ruledata->flags & RPA_RFLAG_LEFTRECURSION)
-		rec->usertype = RPA_LOOP_PATH;
 }
 
 
@@ -452,6 +448,43 @@ static void rpavm_swi_checkcache(rvmcpu_t *cpu, rvm_asmins_t *ins)
 }
 
 
+/*
+ * Emit again the records of the left recursive match so far (op1, op2]
+ */
+static void rpavm_swi_looprecords(rvmcpu_t *cpu, rvm_asmins_t *ins)
+{
+	rpastat_t *stat = (rpastat_t *)cpu->userdata1;
+	rword first = RVM_CPUREG_GETL(cpu, ins->op1) + 1;
+	rword size = RVM_CPUREG_GETL(cpu, ins->op2) - first + 1;
+	rword index = RVM_CPUREG_GETL(cpu, R_REC);
+
+	if (!stat->records || size <= 0)
+		return;
+	if ((rword)r_array_length(stat->records) < index + 1 + size)
+		r_array_setlength(stat->records, index + 1 + size);
+	rpa_recordtree_move(stat->records, index + 1, first, size);
+	RVM_CPUREG_SETL(cpu, R_REC, index + size);
+}
+
+
+/*
+ * Replace the records of the left recursive match so far (op1, op2] with the records
+ * emitted after them.
+ */
+static void rpavm_swi_loopreplace(rvmcpu_t *cpu, rvm_asmins_t *ins)
+{
+	rpastat_t *stat = (rpastat_t *)cpu->userdata1;
+	rword first = RVM_CPUREG_GETL(cpu, ins->op1);
+	rword last = RVM_CPUREG_GETL(cpu, ins->op2);
+	rword size = RVM_CPUREG_GETL(cpu, R_REC) - last;
+
+	if (!stat->records)
+		return;
+	rpa_recordtree_move(stat->records, first + 1, last + 1, size);
+	RVM_CPUREG_SETL(cpu, R_REC, first + size);
+}
+
+
 static rvm_switable_t rpavm_swi_table[] = {
 		{"RPA_MATCHCHR_NAN", rpavm_swi_matchchr_nan},
 		{"RPA_MATCHCHR_OPT", rpavm_swi_matchchr_opt},
@@ -477,6 +510,8 @@ static rvm_switable_t rpavm_swi_table[] = {
 		{"RPA_MATCHBITMAP", rpavm_swi_matchbitmap},
 		{"RPA_EXITONBITMAP", rpavm_swi_exitonbitmap},
 		{"RPA_VERIFYBITMAP", rpavm_swi_verifybitmap},
+		{"RPA_LOOPRECORDS", rpavm_swi_looprecords},
+		{"RPA_LOOPREPLACE", rpavm_swi_loopreplace},
 		{NULL, NULL},
 };
 
diff --git a/rpa/rpavm.h b/rpa/rpavm.h
index 082af16..72b5e9c 100644
--- a/rpa/rpavm.h
+++ b/rpa/rpavm.h
@@ -43,6 +43,8 @@ extern "C" {
 #define RPA_RFLAG_ABORTONFAIL (1 << 2)
 #define RPA_RFLAG_LEFTRECURSION (1<<3)
 
+#define R_LRE (TP - 6)
+#define R_LRB (TP - 5)
 #define R_LTP (TP - 4)
 #define R_REC (TP - 3)
 #define R_LOO (TP - 2)
@@ -78,6 +80,8 @@ extern "C" {
 #define RPA_MATCHBITMAP		RVM_OPSWI(RVM_SWI_ID(RPAVM_SWI_TABLEID, 21))
 #define RPA_EXITONBITMAP	RVM_OPSWI(RVM_SWI_ID(RPAVM_SWI_TABLEID, 22))
 #define RPA_VERIFYBITMAP	RVM_OPSWI(RVM_SWI_ID(RPAVM_SWI_TABLEID, 23))
+#define RPA_LOOPRECORDS		RVM_OPSWI(RVM_SWI_ID(RPAVM_SWI_TABLEID, 24))
+#define RPA_LOOPREPLACE		RVM_OPSWI(RVM_SWI_ID(RPAVM_SWI_TABLEID, 25))
 
 
 
-- 
2.43.0


From 0791aba6fbc901fc7a1ba79ce42a4a22bb6d9b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:16 +0000
Subject: [PATCH 16/90] fix: rpa: records of an inlined left recursive rule
 carry the id of the rule

---
 rpa/rpadbex.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 33077bd..a04fe57 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1955,6 +1955,13 @@ int rpa_dbex_compile(rpadbex_t *dbex)
 	dbex->co = rpa_compiler_create();
 	rpa_dbex_setemit(dbex, TRUE);
 
+	/*
+	 * A left recursive rule is inlined in the rules that start with it, so the ids
+	 * of all rules have to be known before the first one is compiled.
+	 */
+	for (rid = rpa_dbex_first(dbex); rid >= 0; rid = rpa_dbex_next(dbex, rid))
+		rpa_compiler_rulepref_set_ruleid_s(dbex->co, rpa_dbex_name(dbex, rid), rid);
+
 	for (rid = rpa_dbex_first(dbex); rid >= 0; rid = rpa_dbex_next(dbex, rid)) {
 		if (rpa_dbex_compile_rule(dbex, rid) < 0) {
 			RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_COMPILE);
-- 
2.43.0


From 08b00043d0ad937af622ad58903ca3cfda9ec67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:16 +0000
Subject: [PATCH 17/90] fix: rpa: copy the requested branch of a record tree,
 not the first records

---
 rpa/rparecord.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpa/rparecord.c b/rpa/rparecord.c
index fa4f1c9..ca4d13c 100644
--- a/rpa/rparecord.c
+++ b/rpa/rparecord.c
@@ -193,7 +193,7 @@ long rpa_recordtree_copy(rarray_t *dst, rarray_t *src, long rec)
 	size = rpa_recordtree_size(src, rec);
 
 	for (i = 0; i < size; i++) {
-		prec = rpa_record_get(src, i);
+		prec = rpa_record_get(src, rec + i);
 		r_array_add(dst, prec);
 	}
 	return size;
-- 
2.43.0


From 6bd85a35fe9bb325462f0c6e313a790005a2936e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:15 +0000
Subject: [PATCH 18/90] fix: rpa: an optional reference in front of a loop
 reference is not part of the loop

---
 rpa/rpadbex.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index a04fe57..4936498 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1177,6 +1177,12 @@ static int rpa_parseinfo_loopdetect_do(rpadbex_t *dbex, long parent, long loopto
 				break;
 		}
 
+		if (i == parent) {
+			/*
+			 * Only where the reference itself leads to is of interest here.
+			 */
+			break;
+		}
 		if ((prec->usertype & RPA_MATCH_OPTIONAL) == 0 && (prec->ruleuid == RPA_PRODUCTION_CREF || prec->ruleuid == RPA_PRODUCTION_AREF ||
 				prec->ruleuid == RPA_PRODUCTION_CHAR || prec->ruleuid == RPA_PRODUCTION_CLS || prec->ruleuid == RPA_PRODUCTION_SPECIALCHAR ||
 				prec->ruleuid == RPA_PRODUCTION_NOTOP || prec->ruleuid == RPA_PRODUCTION_BRACKETEXP)) {
-- 
2.43.0


From 11f16eb3baa79284b152980979b6bab531d0cf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:45 +0000
Subject: [PATCH 19/90] fix: rpa: first character bitmaps do not hide a rule
 that aborts

---
 rpa/rpabitmap.c |  5 +++++
 rpa/rpadbex.c   | 29 +++++++++++++++++++++++++++--
 rpa/rpastat.c   |  5 ++++-
 3 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/rpa/rpabitmap.c b/rpa/rpabitmap.c
index 15d19f7..e33e584 100644
--- a/rpa/rpabitmap.c
+++ b/rpa/rpabitmap.c
@@ -230,6 +230,11 @@ static long rpa_bitmap_set_minop(rarray_t *records, rparecord_t *record, long re
 			rparecord_t *childrecord = rpa_record_get(records, child);
 			RPA_BITMAP_SETVAL(RPA_RECORD2BITMAP(record), RPA_BITMAP_GETVAL(RPA_RECORD2BITMAP(childrecord)));
 		}
+		/*
+		 * The excluded branches are tried first, they can abort the match.
+		 */
+		while (child >= 0 && (child = rpa_recordtree_next(records, child, RPA_RECORD_END)) >= 0)
+			RPA_BITMAP_ORBITS(RPA_RECORD2BITMAP(record), RPA_RECORD2BITMAP(rpa_record_get(records, child)));
 		/*
 		 * It can succeed without looking at the input.
 		 */
diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 4936498..b83521c 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -55,6 +55,32 @@ static void rpa_dbex_buildbitmapinfo(rpadbex_t *dbex);
 static void rpa_dbex_buildbitmapinfo_for_rule(rpadbex_t *dbex, rparule_t rid);
 static void rpa_dbex_bitmapinfo_set_all(rpadbex_t *dbex, rparule_t rid);
 
+
+/*
+ * Check if there is an abort directive for this rule, regardless where in the text it is.
+ */
+static rboolean rpa_dbex_hasabortdirective(rpadbex_t *dbex, rparule_t rid)
+{
+	const char *rulename = rpa_dbex_name(dbex, rid);
+	const char *name = NULL;
+	unsigned long namesize;
+	rpa_ruleinfo_t *info;
+	rparecord_t *prec;
+	unsigned int i;
+
+	for (i = 0; rulename && i < r_array_length(dbex->rules->members); i++) {
+		if ((info = (rpa_ruleinfo_t *)r_harray_get(dbex->rules, i)) == NULL || info->type != RPA_RULEINFO_DIRECTIVE)
+			continue;
+		prec = rpa_record_get(dbex->records, info->startrec);
+		if (!prec || prec->ruleuid != RPA_PRODUCTION_DIRECTIVEABORT || rpa_dbex_rulename(dbex, info->startrec, &name, &namesize) < 0)
+			continue;
+		if (r_strlen(rulename) == namesize && r_strncmp(rulename, name, namesize) == 0)
+			return TRUE;
+	}
+	return FALSE;
+}
+
+
 static void rpa_dbex_buildbitmapinfo_for_rule(rpadbex_t *dbex, rparule_t rid)
 {
 	rpa_bitmapcompiler_t bc;
@@ -64,11 +90,10 @@ static void rpa_dbex_buildbitmapinfo_for_rule(rpadbex_t *dbex, rparule_t rid)
 	r_memset(&bc, 0, sizeof(bc));
 	bc.dbex = dbex;
 	if ((info = (rpa_ruleinfo_t *)r_harray_get(rules, rid)) != NULL) {
-		rpa_rulepref_t *rulepref = rpa_compiler_rulepref_lookup_s(dbex->co, rpa_dbex_name(dbex, rid));
 		rparecord_t *record = rpa_record_get(dbex->records, info->startrec);
 		RPA_BITMAP_SETALL(RPA_RECORD2BITMAP(record));
 		rpa_recordtree_walk(dbex->records, info->startrec, 0, rpa_bitmap_set, (rpointer)&bc);
-		if (rulepref && (rulepref->flags & RPA_RFLAG_ABORTONFAIL))
+		if (rpa_dbex_hasabortdirective(dbex, rid))
 			rpa_dbex_bitmapinfo_set_all(dbex, rid);
 	}
 }
diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index cc0c1dd..46f03ee 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -246,8 +246,11 @@ rboolean rpa_stat_matchbitmap(rpastat_t *stat, long top, rpabitmap_t bitmap)
 	int ret = FALSE;
 	rpainput_t *in = &stat->instack[top];
 
+	/*
+	 * If everything is allowed, then the end of the input has to be looked at, too.
+	 */
 	if (in->eof)
-		return 0;
+		return (bitmap == (rpabitmap_t)-1) ? TRUE : FALSE;
 	if (stat->encoding & RPA_ENCODING_ICASE) {
 		ret = (RPA_BITMAP_GETBIT(&bitmap, in->wc % RPA_BITMAP_BITS) || RPA_BITMAP_GETBIT(&bitmap, in->iwc % RPA_BITMAP_BITS)) ? TRUE : FALSE;
 	} else {
-- 
2.43.0


From 3f78afffcc793feffa35fbfc1798d695546bacd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 20/90] fix: rvm: ADC and SBC set the carry when the carry in
 completes it

---
 rvm/rvmcpu.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index b95b6ed..cda431d 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -375,7 +375,7 @@ static void rvm_op_adc(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	
 	res = op2 + op3 + (RVM_STATUS_GETBIT(cpu, RVM_STATUS_C) ? 1 : 0);
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
-	RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, res < op2 || res < op3);
+	RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, res < op2 || (RVM_STATUS_GETBIT(cpu, RVM_STATUS_C) && res == op2));
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_N, res & RVM_SIGN_BIT);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_V, (op2 & RVM_SIGN_BIT) == (op3 & RVM_SIGN_BIT) &&
@@ -637,7 +637,7 @@ static void rvm_op_sbc(rvmcpu_t *cpu, rvm_asmins_t *ins)
 
 	res = op2 - op3 + (RVM_STATUS_GETBIT(cpu, RVM_STATUS_C) ? 0 : -1);
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
-	RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, !(res > op2));	/* borrow = !carry */
+	RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, RVM_STATUS_GETBIT(cpu, RVM_STATUS_C) ? op2 >= op3 : op2 > op3);	/* borrow = !carry */
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_N, res & RVM_SIGN_BIT);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_V, (op2 & RVM_SIGN_BIT) != (op3 & RVM_SIGN_BIT) &&
-- 
2.43.0


From 7d35245be60295798f2615f1231d69414f26ecb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 21/90] fix: rvm: right shifts fill with the sign, set N and
 rotate by any count

---
 rvm/rvmcpu.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index cda431d..4e767c0 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -427,6 +427,7 @@ static void rvm_op_lsr(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
+	RVM_STATUS_UPDATE(cpu, RVM_STATUS_N, res & RVM_SIGN_BIT);
 }
 
 
@@ -438,6 +439,7 @@ static void rvm_op_lsrs(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
+	RVM_STATUS_UPDATE(cpu, RVM_STATUS_N, res & RVM_SIGN_BIT);
 }
 
 
@@ -446,7 +448,8 @@ static void rvm_op_asr(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	ruword res, op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3);
 	
 	res = op2 >> op3;
-	res |= op2 & RVM_SIGN_BIT;
+	if ((op2 & RVM_SIGN_BIT) && op3)
+		res |= ~((~(ruword)0) >> op3);
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
@@ -456,11 +459,11 @@ static void rvm_op_asr(rvmcpu_t *cpu, rvm_asmins_t *ins)
 
 static void rvm_op_ror(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
-	unsigned int i;
+	ruword i;
 	ruword res, op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3);
 	
 	res = op2;
-	for (i = 0; i < op3; i++) {
+	for (i = 0; i < op3 % RVM_REGISTER_BITS; i++) {
 		if (res & 1) {
 			res >>= 1;
 			res |= RVM_SIGN_BIT;
-- 
2.43.0


From 9335c2175fa724de360705eb6b88840f858a6daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 22/90] fix: rvm: signed division by minus one does not trap,
 MODS prints nothing

---
 rvm/rvmcpu.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index 4e767c0..3e16ec5 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -719,8 +719,7 @@ static void rvm_op_mods(rvmcpu_t *cpu, rvm_asmins_t *ins)
 
 	if (!op3)
 		RVM_ABORT(cpu, RVM_E_DIVZERO);
-	res = op2 % op3;
-	r_printf("mod RES: %ld\n", res);
+	res = (op3 == -1) ? 0 : op2 % op3;
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
@@ -735,7 +734,7 @@ static void rvm_op_dvs(rvmcpu_t *cpu, rvm_asmins_t *ins)
 
 	if (!op3)
 		RVM_ABORT(cpu, RVM_E_DIVZERO);
-	res = (rword)(op2 / op3);
+	res = (op3 == -1) ? (rword)(0 - (ruword)op2) : (rword)(op2 / op3);
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
-- 
2.43.0


From a489cfacfcdb77a1af6f67d3b197fc390c893c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 23/90] fix: rvm: a runtime error stops the program, not the
 process

---
 rvm/rvmcpu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rvm/rvmcpu.h b/rvm/rvmcpu.h
index 26fe889..224f205 100644
--- a/rvm/rvmcpu.h
+++ b/rvm/rvmcpu.h
@@ -417,7 +417,7 @@ enum {
 };
 
 #define RVM_STACK_CHUNK 256
-#define RVM_ABORT(__cpu__, __e__) do { __cpu__->error = (__e__); (__cpu__)->abort = 1; R_ASSERT(0); return; } while (0)
+#define RVM_ABORT(__cpu__, __e__) do { __cpu__->error = (__e__); (__cpu__)->abort = 1; return; } while (0)
 #define BIT(__shiftby__) (1 << (__shiftby__))
 #define BITR(__f__, __l__, __r__) (((__r__) >= (__f__) && (__r__) <= (__l__)) ? BIT(__r__) : 0)
 #define BITS(__f__, __l__)  (BITR(__f__, __l__, R0)) | (BITR(__f__, __l__, R1)) | (BITR(__f__, __l__, R2)) | (BITR(__f__, __l__, R3)) | \
-- 
2.43.0


From 4de48d59c5d9a12b898fe34a067dcfd754e65e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:18 +0000
Subject: [PATCH 24/90] fix: rvm: reads beyond the stack are refused like
 writes

---
 rvm/rvmcpu.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index 3e16ec5..09306b1 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -757,6 +757,8 @@ static void rvm_op_lds(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword sp = ((ins->op2 != XX) ? RVM_CPUREG_GETU(cpu, ins->op2) : 0) + ((ins->op3 != XX) ? RVM_CPUREG_GETU(cpu, ins->op3) : 0);
 
+	if (!RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp))
+		RVM_ABORT(cpu, RVM_E_NOMEM);
 	RVM_CPUREG_SET(cpu, ins->op1, RVM_STACK_READ(cpu->stack, sp));
 }
 
@@ -806,6 +808,8 @@ static void rvm_op_popm(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	for (; bits && i >= 0; i--) {
 		n = 1 << i;
 		if (n & bits) {
+			if (!RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp))
+				RVM_ABORT(cpu, RVM_E_NOMEM);
 			RVM_CPUREG_SET(cpu, i, RVM_STACK_READ(cpu->stack, sp));
 			sp -= 1;
 			bits &= ~n;
@@ -820,6 +824,8 @@ static void rvm_op_pop(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword sp = RVM_CPUREG_GETU(cpu, SP);
 
+	if (!RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp))
+		RVM_ABORT(cpu, RVM_E_NOMEM);
 	RVM_CPUREG_SET(cpu, ins->op1, RVM_STACK_READ(cpu->stack, sp));
 	if (ins->op1 != SP)
 		RVM_CPUREG_SETU(cpu, SP, sp - 1);
-- 
2.43.0


From 987342f1f1eacd7cbac99f35bb409cc781d2399c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 25/90] fix: rvm: a cleared code generator forgets the sources
 of its instructions

---
 rvm/rvmcodegen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rvm/rvmcodegen.c b/rvm/rvmcodegen.c
index 1303e0e..b0bf059 100644
--- a/rvm/rvmcodegen.c
+++ b/rvm/rvmcodegen.c
@@ -57,6 +57,7 @@ void rvm_codegen_clear(rvm_codegen_t *cg)
 {
 	r_array_setlength(cg->code, 0);
 	r_array_setlength(cg->staticdata, 0);
+	r_array_setlength(cg->sourceidx, 0);
 	rvm_codemap_clear(cg->codemap);
 	rvm_relocmap_clear(cg->relocmap);
 }
-- 
2.43.0


From 21ebcf26486a27be912b05998b09dd144c604238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:12 +0000
Subject: [PATCH 26/90] fix: rvm: popping a scope that was never pushed changes
 nothing

---
 rvm/rvmscope.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rvm/rvmscope.c b/rvm/rvmscope.c
index f8acfc1..d59aa37 100644
--- a/rvm/rvmscope.c
+++ b/rvm/rvmscope.c
@@ -90,7 +90,11 @@ void rvm_scope_push(rvm_scope_t* scope)
 
 void rvm_scope_pop(rvm_scope_t* scope)
 {
-	unsigned long scopelen = r_array_index(scope->scopestack, r_array_length(scope->scopestack) - 1, unsigned long);
+	unsigned long scopelen;
+
+	if (r_array_empty(scope->scopestack))
+		return;
+	scopelen = r_array_index(scope->scopestack, r_array_length(scope->scopestack) - 1, unsigned long);
 	r_array_removelast(scope->scopestack);
 	r_array_setlength(scope->varstack, scopelen);
 //	r_printf("SCOPE FRAME: %d, POP: %d\n", r_array_length(scope->scopestack), scopelen);
-- 
2.43.0


From 32446449f68225634678cd573f00869185ce4fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:45 +0000
Subject: [PATCH 27/90] fix: rlib: moving elements beyond the end of an array
 is refused

---
 rlib/rarray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlib/rarray.c b/rlib/rarray.c
index e7c980f..b0f9ee8 100644
--- a/rlib/rarray.c
+++ b/rlib/rarray.c
@@ -201,7 +201,7 @@ void *r_array_slot_expand(rarray_t *array, size_t index)
 int r_array_move(rarray_t *array, size_t dst, size_t src, size_t size)
 {
 	size_t i;
-	if ((dst + size) > r_array_length(array))
+	if (size > r_array_length(array) || dst > r_array_length(array) - size || src > r_array_length(array) - size)
 		return -1;
 	if (dst == src)
 		return 0;
-- 
2.43.0


From 2c60cd45cd892250b788b58261bda1ab5aa8d4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:33 +0000
Subject: [PATCH 28/90] fix: rlib: a map entry added without a value starts
 zeroed, also in a recycled node

---
 rlib/rmap.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rlib/rmap.c b/rlib/rmap.c
index adbe23a..320cff4 100644
--- a/rlib/rmap.c
+++ b/rlib/rmap.c
@@ -187,6 +187,8 @@ size_t r_map_add(rmap_t *map, const char *name, size_t namesize, rconstpointer p
 	node = r_map_getfreenode(map, name, namesize);
 	if (pval)
 		r_memcpy(node->value.data, pval, map->elt_size);
+	else
+		r_memset(node->value.data, 0, map->elt_size);
 	node->nbucket = (r_map_rstring_hash(node->key) & r_map_hashmask(map));
 	r_list_addt(&map->hash[node->nbucket], &node->hash);
 	r_list_addt(&map->active, &node->active);
-- 
2.43.0


From a0bd493437ee5cc7421c6e5749343324843ae0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:33 +0000
Subject: [PATCH 29/90] fix: rlib: r_harray_taillookup_s looks up the newest
 entry

---
 rlib/rharray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlib/rharray.c b/rlib/rharray.c
index 58398c0..d42ffa4 100644
--- a/rlib/rharray.c
+++ b/rlib/rharray.c
@@ -213,7 +213,7 @@ long r_harray_taillookup(rharray_t *harray, const char *name, unsigned int names
 
 long r_harray_taillookup_s(rharray_t *harray, const char *name)
 {
-	return r_harray_lookup(harray, name, r_strlen(name));
+	return r_harray_taillookup(harray, name, r_strlen(name));
 }
 
 
-- 
2.43.0


From 65850064b9285f6612450f9c2623929ced140b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:33 +0000
Subject: [PATCH 30/90] fix: rlib: r_harray_set refuses an index beyond the
 length

---
 rlib/rharray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlib/rharray.c b/rlib/rharray.c
index d42ffa4..6e8acff 100644
--- a/rlib/rharray.c
+++ b/rlib/rharray.c
@@ -246,7 +246,7 @@ rhash_node_t* r_harray_nodetaillookup_s(rharray_t *harray, rhash_node_t *cur, co
 
 int r_harray_set(rharray_t *harray, long index, rconstpointer pval)
 {
-	if (index < 0)
+	if (index < 0 || (unsigned long)index >= r_carray_length(harray->members))
 		return -1;
 	r_carray_replace(harray->members, index, pval);
 	return 0;
-- 
2.43.0


From 032a19425653de7a6f858eac6afea1ababaf5817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:52 +0000
Subject: [PATCH 31/90] fix: rlib: a number of 127 characters is converted
 without losing its last digit

---
 rlib/rstring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlib/rstring.c b/rlib/rstring.c
index c5d1dd3..ee320f2 100644
--- a/rlib/rstring.c
+++ b/rlib/rstring.c
@@ -288,7 +288,7 @@ rstring_t *r_string_create_from_double(double d)
 	int size;
 
 	r_memset(temp, 0, sizeof(temp));
-	size = r_snprintf(temp, sizeof(temp) - 1, "%f", d);
+	size = r_snprintf(temp, sizeof(temp), "%f", d);
 	if (size > 0 && size < (int)sizeof(temp)) {
 		return r_string_create_from_str_len(temp, r_strlen(temp));
 	}
-- 
2.43.0


From a81066017b5df8ba89dd169a580ee207d3c84a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:13 +0000
Subject: [PATCH 32/90] fix: rlib: UTF-8 sequences above U+10FFFF are malformed

---
 rlib/rutf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rlib/rutf.c b/rlib/rutf.c
index 15d8017..388dc12 100644
--- a/rlib/rutf.c
+++ b/rlib/rutf.c
@@ -51,6 +51,8 @@ int r_utf8_mbtowc(ruint32 *pwc, const unsigned char *input, const unsigned char
 	} else if ((c >> 3) == 0x1E) {
 		if (n < 4 || (input[1] >> 6 != 0x02) || (input[2] >> 6 != 0x02) || (input[3] >> 6 != 0x02))
 			goto error;
+		if (c == 0xF4 && input[1] >= 0x90)
+			goto error;		/* above U+10FFFF */
 		*pwc = ((ruint32) (c & 0x07) << 18)
 			| ((ruint32) (input[1] ^ 0x80) << 12)
 			| ((ruint32) (input[2] ^ 0x80) << 6)
-- 
2.43.0


From 29a6e71bd339fc889c924f7c2f5ac819becd567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:30 +0000
Subject: [PATCH 33/90] fix: rlib: a refused allocation is reported, not
 dereferenced, and leaves the accounting alone

---
 rlib/rmem.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/rlib/rmem.c b/rlib/rmem.c
index 1d5a496..70a9396 100644
--- a/rlib/rmem.c
+++ b/rlib/rmem.c
@@ -64,11 +64,15 @@ static rpointer r_dbg_calloc(size_t nmemb, size_t size)
 {
 	ruword *mem = NULL;
 
-	nmemb += (size < sizeof(ruword)) ? sizeof(ruword) : 1;
-	mem = (ruword*)calloc(nmemb, size);
-	*((ruword*)mem) = size * nmemb;
+	if (size && nmemb > (((size_t)-1) - sizeof(ruword)) / size)
+		return NULL;
+	size = size * nmemb + sizeof(ruword);
+	mem = (ruword*)calloc(1, size);
+	if (!mem)
+		return NULL;
+	*((ruword*)mem) = size;
 	r_spinlock_lock(&g_lock);
-	g_allocmem += size * nmemb;
+	g_allocmem += size;
 	if (g_maxmem < g_allocmem)
 		g_maxmem = g_allocmem;
 	r_spinlock_unlock(&g_lock);
@@ -80,8 +84,12 @@ static rpointer r_dbg_calloc(size_t nmemb, size_t size)
 static rpointer r_dbg_malloc(size_t size)
 {
 	ruword *mem = NULL;
+	if (size > ((size_t)-1) - sizeof(ruword))
+		return NULL;
 	size += sizeof(ruword);
 	mem = (ruword*)malloc((size));
+	if (!mem)
+		return NULL;
 	*((ruword*)mem) = size;
 	r_spinlock_lock(&g_lock);
 	g_allocmem += size;
@@ -114,13 +122,15 @@ static rpointer r_dbg_realloc(rpointer ptr, size_t size)
 	if (!ptr)
 		return r_malloc(size);
 	csize = *mem;
-	r_spinlock_lock(&g_lock);
-	g_allocmem -= csize;
-	r_spinlock_unlock(&g_lock);
+	if (size > ((size_t)-1) - sizeof(ruword))
+		return NULL;
 	size += sizeof(ruword);
 	mem = (ruword*)realloc((void*)mem, (size));
+	if (!mem)
+		return NULL;
 	*mem = size;
 	r_spinlock_lock(&g_lock);
+	g_allocmem -= csize;
 	g_allocmem += size;
 	if (g_maxmem < g_allocmem)
 		g_maxmem = g_allocmem;
-- 
2.43.0


From 238987958c603e0fd9059d49186a84d1da21e23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:30 +0000
Subject: [PATCH 34/90] fix: rlib: an array that cannot grow refuses the
 request instead of writing past its end

---
 rlib/rarray.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/rlib/rarray.c b/rlib/rarray.c
index b0f9ee8..c735fa6 100644
--- a/rlib/rarray.c
+++ b/rlib/rarray.c
@@ -103,7 +103,8 @@ size_t r_array_add(rarray_t *array, rconstpointer data)
 {
 	size_t index = r_array_length(array);
 
-	r_array_setlength(array, index + 1);
+	if (r_array_setlength(array, index + 1) <= index)
+		return (size_t)-1;
 	r_array_exist_replace(array, index, data);
 	return index;
 }
@@ -125,13 +126,14 @@ size_t r_array_removelast(rarray_t *array)
  */
 size_t r_array_insert(rarray_t *array, size_t index, rconstpointer data)
 {
-	r_array_check_resize(array, index + 1);
 	if (index < r_array_length(array)) {
 		size_t curlen = r_array_length(array);
-		r_array_setlength(array, r_array_length(array) + 1);
+		if (r_array_setlength(array, curlen + 1) <= curlen)
+			return (size_t)-1;
 		r_memmove(r_array_slot(array, index + 1), r_array_slot(array, index), (curlen - index) * array->elt_size);
 	} else {
-		r_array_setlength(array, index + 1);
+		if (index == (size_t)-1 || r_array_setlength(array, index + 1) <= index)
+			return (size_t)-1;
 	}
 	r_array_exist_replace(array, index, data);
 	return index;
@@ -152,7 +154,8 @@ size_t r_array_replace(rarray_t *array, size_t index, rconstpointer data)
 size_t r_array_setlength(rarray_t *array, size_t len)
 {
 	r_array_check_resize(array, len);
-	r_array_length(array) = len;
+	if (len <= r_array_size(array))
+		r_array_length(array) = len;
 	return r_array_length(array);
 }
 
@@ -174,6 +177,8 @@ static void r_array_check_resize(rarray_t *array, size_t len)
 	rpointer data;
 
 	if (array->alloc_size < len) {
+		if (len > ((size_t)-1) / 4 / (array->elt_size + 1))
+			return;
 		for (nalloc_size = array->alloc_size; nalloc_size < len;)
 			nalloc_size = 2 * nalloc_size + 1;
 		data = r_realloc(array->data, nalloc_size * array->elt_size);
@@ -194,6 +199,8 @@ static void r_array_check_resize(rarray_t *array, size_t len)
 void *r_array_slot_expand(rarray_t *array, size_t index)
 {
 	r_array_check_resize(array, index+1);
+	if (index >= r_array_size(array))
+		return NULL;
 	return (void*) r_array_slot(array, index);
 }
 
-- 
2.43.0


From 10888fa67f3b57dd15ad84adddbf4e054c08fe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 35/90] fix: rpa: a matcher given an input outside of its
 buffer reports it instead of running on stale state

---
 rpa/rpastat.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index 46f03ee..3ba7a6e 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -118,7 +118,10 @@ long rpa_stat_exec(rpastat_t *stat, rvm_asmins_t *prog, ruword off, unsigned int
 		return -1;
 	}
 	rpa_stat_cacheinvalidate(stat);
-	rpa_stat_init(stat, encoding, input, start, end, records);
+	if (rpa_stat_init(stat, encoding, input, start, end, records) < 0) {
+		RPA_STAT_SETERROR_CODE(stat, RPA_E_INVALIDINPUT);
+		return -1;
+	}
 
 	if (stat->debug) {
 		ret = rvm_cpu_exec_debug(stat->cpu, prog, off);
-- 
2.43.0


From 3e2b36d5868d1880a8c31a9aa3fa1daa9cbe1279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 36/90] fix: rpa: a match that fails with an execution error
 sets the error code

---
 rpa/rpastat.c | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index 3ba7a6e..1a640b5 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -129,17 +129,11 @@ long rpa_stat_exec(rpastat_t *stat, rvm_asmins_t *prog, ruword off, unsigned int
 		ret = rvm_cpu_exec(stat->cpu, prog, off);
 	}
 	if (ret < 0) {
-		if (!stat->cpu->error) {
-			if (stat->cpu->error) {
-				RPA_STAT_SETERROR_CODE(stat, stat->cpu->error);
-			} else {
-				/*
-				 * We should never get to here. Error have to be more
-				 * specific and set at the places they are detected.
-				 */
-				RPA_STAT_SETERROR_CODE(stat, RPA_E_EXECUTION);
-			}
-		}
+		/*
+		 * Keep the more specific error, if one was set at the place it was detected.
+		 */
+		if (stat->err.code == RPA_E_NONE)
+			RPA_STAT_SETERROR_CODE(stat, RPA_E_EXECUTION);
 		return -1;
 	}
 	ret = (long)RVM_CPUREG_GETL(stat->cpu, R0);
-- 
2.43.0


From 5dc73d8e712a12ac7e9a659dcadd34dd35d582de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 37/90] fix: rpa: a database whose recompilation failed is not
 compiled

---
 rpa/rpadbex.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index b83521c..ffa1997 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1981,6 +1981,7 @@ int rpa_dbex_compile(rpadbex_t *dbex)
 	/*
 	 * By default all production rules emit
 	 */
+	dbex->compiled = 0;
 	if (dbex->co)
 		rpa_compiler_destroy(dbex->co);
 	dbex->co = rpa_compiler_create();
-- 
2.43.0


From f8256ead6f8121cb42ae015b62c6c09e18ffb7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 38/90] fix: rexjson: accept the escape \/ in strings

---
 rexjson/rexjsondfa.rexcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexjson/rexjsondfa.rexcc b/rexjson/rexjsondfa.rexcc
index 46a4fc1..8ca4794 100644
--- a/rexjson/rexjsondfa.rexcc
+++ b/rexjson/rexjsondfa.rexcc
@@ -21,7 +21,7 @@
 #define TOKEN_RIGHTCB 273
 
 %%
-TOKEN_STRING        "([^"\\#0x0-#0x1F]|[\\](["\\bfnrt]|u[0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F]))*"
+TOKEN_STRING        "([^"\\#0x0-#0x1F]|[\\](["\\/bfnrt]|u[0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F]))*"
 TOKEN_INT           -?[0-9]|-?[1-9][0-9]+
 TOKEN_NUMBER        -?([1-9][0-9]*|0)([.][0-9]+)?([eE][+\-]?[0-9]+)?
 TOKEN_TRUE          true
-- 
2.43.0


From 6ad1bf168af867d5373bba943adafbb9c71b0cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 39/90] fix: rexjson: the size of an array or object ends at
 its closing bracket

---
 rexjson/rexjson.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/rexjson/rexjson.c b/rexjson/rexjson.c
index 89babab..bd58716 100644
--- a/rexjson/rexjson.c
+++ b/rexjson/rexjson.c
@@ -51,6 +51,7 @@ static void rexjson_get_token(rexjson_t *ctx)
 
 	ctx->token_str = buffer;
 	ctx->token_size = 0;
+	ctx->token_offset = ctx->offset;
 	ctx->token_id = -1;
 	for (i = 0; i < size; i++) {
 		ch = buffer[i];
@@ -68,10 +69,7 @@ static void rexjson_get_token(rexjson_t *ctx)
 			ctx->token_id = (int) acc_ss->userdata;
 		}
 	}
-	if (ctx->token_size > 0) {
-		ctx->token_offset = ctx->offset;
-		ctx->offset += ctx->token_size;
-	}
+	ctx->offset += ctx->token_size;
 }
 
 static void rexjson_next_token(rexjson_t *ctx)
@@ -131,6 +129,7 @@ static ssize_t rexjson_parse_namevalue(rexjson_t* ctx)
 static ssize_t rexjson_parse_object(rexjson_t* ctx)
 {
 	size_t cur_offset = ctx->token_offset;
+	size_t size;
 	rexjson_record_t *record = rexjson_record_current(ctx);
 
 	if (rexjson_parse_token(ctx, TOKEN_LEFTCB) < 0)
@@ -145,17 +144,19 @@ static ssize_t rexjson_parse_object(rexjson_t* ctx)
 				return -1;
 		}
 	}
+	size = ctx->token_offset + ctx->token_size - cur_offset;
 	if (rexjson_parse_token(ctx, TOKEN_RIGHTCB) < 0)
 		return -1;
 	record->value = cur_offset;
-	record->valuesize = ctx->token_offset - cur_offset;
+	record->valuesize = size;
 	record->valtype = REXJSON_VALUE_OBJECT;
-	return (ctx->token_offset - cur_offset);
+	return size;
 }
 
 static ssize_t rexjson_parse_array(rexjson_t* ctx)
 {
 	size_t cur_offset = ctx->token_offset;
+	size_t size;
 	rexjson_record_t *record = rexjson_record_current(ctx);
 
 	if (rexjson_parse_token(ctx, TOKEN_LEFTSB) < 0)
@@ -170,12 +171,13 @@ static ssize_t rexjson_parse_array(rexjson_t* ctx)
 				return -1;
 		}
 	}
+	size = ctx->token_offset + ctx->token_size - cur_offset;
 	if (rexjson_parse_token(ctx, TOKEN_RIGHTSB) < 0)
 		return -1;
 	record->value = cur_offset;
-	record->valuesize = ctx->token_offset - cur_offset;
+	record->valuesize = size;
 	record->valtype = REXJSON_VALUE_ARRAY;
-	return (ctx->token_offset - cur_offset);
+	return size;
 }
 
 
-- 
2.43.0


From fd28d0837c004cc61a3ab9a6036e770ed67d97d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 40/90] fix: rexjson: terminate the records, so a reused array
 doesn't show stale ones

---
 rexjson/rexjson.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rexjson/rexjson.c b/rexjson/rexjson.c
index bd58716..c5f5fbb 100644
--- a/rexjson/rexjson.c
+++ b/rexjson/rexjson.c
@@ -335,9 +335,17 @@ void rexjson_dump_records(FILE *file, rexjson_record_t* recs, size_t recsize, co
 
 ssize_t rexjson_parse_buffer(rexjson_t *ctx, rexjson_record_t* recs, size_t recsize, const char* buffer, size_t bufsize, size_t maxlevels)
 {
+	ssize_t ret;
+
 	rexjson_init(ctx, recs, recsize, buffer, bufsize, maxlevels);
 	rexjson_next_token(ctx);
-	return rexjson_parse_value(ctx);
+	ret = rexjson_parse_value(ctx);
+	/*
+	 * The records left from a previous use of the array are not part of this tree.
+	 */
+	if (ctx->top < ctx->stacksize)
+		ctx->stack[ctx->top].rectype = REXJSON_RECORD_NONE;
+	return ret;
 }
 
 static ssize_t rexjson_recordtree_end(rexjson_record_t* recs, size_t recsize, ssize_t rec_index)
-- 
2.43.0


From f99c18dc9d5acac07ea33970f145f74ac2409eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 41/90] fix: rexjson++: refuse numbers with an incomplete
 fraction or exponent instead of dropping characters

---
 rexjson/rexjson++.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 247b397..5bb4104 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -607,6 +607,12 @@ void input::get_token()
 			token_ = loctok_;
 		}
 	}
+	/*
+	 * The characters after the longest match are already consumed, if there are any
+	 * (1. or 2e+) this is not a token.
+	 */
+	if (token_id_ && token_.length() + 1 < loctok_.length())
+		token_id_ = 0;
 }
 
 void input::read_steam(value& v, size_t maxlevels)
-- 
2.43.0


From 0e4ab76fe51fbb31156d4d8855fdfd5da6cdc5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 42/90] fix: rexjson++: decode the \u escapes to UTF-8,
 surrogate pairs included

---
 rexjson/rexjson++.cpp | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 5bb4104..5eb2014 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -105,23 +105,44 @@ static std::string unescape_str(const std::string& s)
 			std::string ustr(it + 2, it + 6);
 			unsigned int wc = static_cast<unsigned int>(std::strtol(ustr.c_str(), NULL, 16));
 			unsigned int count = 0;
+			if (wc >= 0xD800 && wc <= 0xDBFF && s.end() - it > 11 && *(it + 6) == '\\' && *(it + 7) == 'u') {
+				/*
+				 * A surrogate pair is one character
+				 */
+				std::string lstr(it + 8, it + 12);
+				unsigned int low = static_cast<unsigned int>(std::strtol(lstr.c_str(), NULL, 16));
+				if (low >= 0xDC00 && low <= 0xDFFF) {
+					wc = 0x10000 + ((wc - 0xD800) << 10) + (low - 0xDC00);
+					it += 6;
+				}
+			}
 			if (wc <= 0x007F)
 				count = 1;
 			else if (wc <= 0x07FF)
 				count = 2;
 			else if (wc <= 0xFFFF)
 				count = 3;
+			else
+				count = 4;
 			switch (count) {
+				case 1:
+					os << static_cast<unsigned char>(wc);
+					break;
+				case 2:
+					os << static_cast<unsigned char>(0xc0 | (wc >> 6));
+					os << static_cast<unsigned char>(0x80 | (wc & 0x3f));
+					break;
 				case 3:
+					os << static_cast<unsigned char>(0xe0 | (wc >> 12));
+					os << static_cast<unsigned char>(0x80 | ((wc >> 6) & 0x3f));
 					os << static_cast<unsigned char>(0x80 | (wc & 0x3f));
-					wc = wc >> 6;
-					wc |= 0x800;
-				case 2:
+					break;
+				case 4:
+					os << static_cast<unsigned char>(0xf0 | (wc >> 18));
+					os << static_cast<unsigned char>(0x80 | ((wc >> 12) & 0x3f));
+					os << static_cast<unsigned char>(0x80 | ((wc >> 6) & 0x3f));
 					os << static_cast<unsigned char>(0x80 | (wc & 0x3f));
-					wc = wc >> 6;
-					wc |= 0xc0;
-				case 1:
-					os << static_cast<unsigned char>(wc);
+					break;
 			}
 			it += 5;
 		} else if (*it == '\\' && (it + 1) < s.end()) {
-- 
2.43.0


From 12f2b9c28b9946076b4f20abd6251dcb4ddc71bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 43/90] fix: rexjson++: escape backslashes and control
 characters when writing strings

---
 rexjson/rexjson++.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 5eb2014..8228283 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -48,13 +48,12 @@ std::string value::get_typename(unsigned int type)
 	return ret;
 }
 
-static void escape_str_val(const value& v, std::ostream& os)
+static void escape_str(const std::string& s, std::ostream& os)
 {
-	for (std::string::const_iterator it = v.get_str().begin(); it != v.get_str().end(); it++) {
-		if (*it == '\\' && (it + 1) != v.get_str().end()) {
-			os << *it++;
-			os << *it;
-		} else if (*it == '"') {
+	static const char hex[] = "0123456789abcdef";
+
+	for (std::string::const_iterator it = s.begin(); it != s.end(); it++) {
+		if (*it == '"' || *it == '\\') {
 			os << '\\' << *it;
 		} else if (*it == '\b') {
 			os << "\\b";
@@ -66,6 +65,8 @@ static void escape_str_val(const value& v, std::ostream& os)
 			os << "\\r";
 		} else if (*it == '\t') {
 			os << "\\t";
+		} else if (static_cast<unsigned char>(*it) < 0x20) {
+			os << "\\u00" << hex[(*it >> 4) & 0xf] << hex[*it & 0xf];
 		} else {
 			os << *it;
 		}
@@ -369,7 +370,7 @@ value& value::operator=(const char* v)
 	destroy();
 	check_type(null_type);
 	value_type_ = str_type;
-	store_.v_string_ = new std::string(v);
+	store_.v_string_ = new std::string(unescape_str(v));
 	return *this;
 }
 
@@ -553,7 +554,7 @@ void output::write_stream(const value& v, std::ostream& os, size_t level)
 		}
 	} else if (v.value_type_ == str_type) {
 		os << '"';
-		escape_str_val(v, os);
+		escape_str(v.get_str(), os);
 		os << '"';
 	} else if (v.value_type_ == obj_type) {
 		size_t elems = 0;
-- 
2.43.0


From de6a5326958ef4b4628fd11ca377ea2b056d1d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 44/90] fix: rexjson++: member names are escaped and unescaped
 like any other string

---
 rexjson/rexjson++.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 8228283..1d114c8 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -517,7 +517,9 @@ void output::write_stream_namevalue(const std::string& n, const value& v, std::o
 	std::string indent(level * tabsize_, ' ');
 	if (pretty_)
 		os << indent;
-	os << '"' << n << '"';
+	os << '"';
+	escape_str(n, os);
+	os << '"';
 	if (pretty_)
 		os << ' ';
 	os << ":";
@@ -673,7 +675,7 @@ void input::parse_name(std::string &str)
 {
 	if (token_id_ != TOKEN_STRING)
 		error_unexpectedtoken();
-	str = (token_.length() > 2) ? token_.substr(1, token_.length() - 2) : std::string();
+	str = (token_.length() > 2) ? unescape_str(token_.substr(1, token_.length() - 2)) : std::string();
 	next_token();
 }
 
-- 
2.43.0


From 34c4eb492ec29938aade492446889bf4a056a113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 45/90] fix: rexjson++: numbers that are not finite are written
 as null

---
 rexjson/rexjson++.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 1d114c8..af0fdf7 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -18,6 +18,7 @@
 
 #include <sstream>
 #include <stdexcept>
+#include <cmath>
 #include <cstdlib>
 #include <limits>
 #include "rexjson++.h"
@@ -547,7 +548,7 @@ void output::write_stream(const value& v, std::ostream& os, size_t level)
 	} else if (v.value_type_ == int_type) {
 		os << v.get_int64();
 	} else if (v.value_type_ == real_type) {
-		if (v.get_real() != std::numeric_limits<double>::infinity() && v.get_real() != std::numeric_limits<double>::quiet_NaN()) {
+		if (std::isfinite(v.get_real())) {
 			os.precision(precision_);
 			os.setf(std::ios::fixed, std:: ios::floatfield);
 			os << v.get_real();
-- 
2.43.0


From ff1353fc1bc87ca845ec3736e0e30f1b795ca07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 46/90] fix: rexjson++: assigning a part of a value to itself
 reads freed memory

---
 rexjson/rexjson++.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index af0fdf7..356c1bf 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -368,10 +368,11 @@ void value::check_type(value_type vtype) const
 
 value& value::operator=(const char* v)
 {
+	std::string *tmp = new std::string(unescape_str(v));
+
 	destroy();
-	check_type(null_type);
 	value_type_ = str_type;
-	store_.v_string_ = new std::string(unescape_str(v));
+	store_.v_string_ = tmp;
 	return *this;
 }
 
@@ -441,16 +442,21 @@ value& value::operator=(const value& v)
 {
 	if (&v == this)
 		return *this;
-	destroy();
-	value_type_ = v.value_type_;
-	if (get_type() == str_type)
-		store_.v_string_ = new std::string(*v.store_.v_string_);
-	else if (get_type() == array_type)
-		store_.v_array_ = new array(*v.store_.v_array_);
-	else if (get_type() == obj_type)
-		store_.v_object_ =  new object(*v.store_.v_object_);
+	/*
+	 * The new value may be a part of this one, or this one may be a part of the new value
+	 */
+	value tmp;
+	if (v.get_type() == str_type)
+		tmp.store_.v_string_ = new std::string(*v.store_.v_string_);
+	else if (v.get_type() == array_type)
+		tmp.store_.v_array_ = new array(*v.store_.v_array_);
+	else if (v.get_type() == obj_type)
+		tmp.store_.v_object_ =  new object(*v.store_.v_object_);
 	else
-		store_ = v.store_;
+		tmp.store_ = v.store_;
+	tmp.value_type_ = v.value_type_;
+	destroy();
+	move(tmp);
 	return *this;
 }
 
-- 
2.43.0


From 9830b0a19bc5b4dd4a7b6e32fa85c67d1f604d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 47/90] fix: rexjson++: unsigned integers above the range of
 int become negative

---
 rexjson/rexjson++.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 356c1bf..3b1e126 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -211,7 +211,7 @@ value::value(int v)
 value::value(unsigned int v)
 {
 	value_type_ = int_type;
-	store_.v_int_ = (signed int)v;
+	store_.v_int_ = v;
 }
 
 value::value(long int v)
-- 
2.43.0


From f88d2ce26fe9921dbde398be848de9aff4bb17a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 48/90] fix: rexjsonrpc: rpc_server<> with its default argument
 does not compile

---
 rexjsonrpc/rpcserver.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rexjsonrpc/rpcserver.h b/rexjsonrpc/rpcserver.h
index 030a979..7499ff8 100644
--- a/rexjsonrpc/rpcserver.h
+++ b/rexjsonrpc/rpcserver.h
@@ -195,8 +195,8 @@ public:
 	rpc_server()
 	{
 		add("help", this, &rpc_server::rpc_help);
-		add("spec", &rpc_server::rpc_spec);
-		add("helpspec", &rpc_server::rpc_helpspec);
+		add("spec", this, &rpc_server::rpc_spec);
+		add("helpspec", this, &rpc_server::rpc_helpspec);
 	}
 
 	~rpc_server()
-- 
2.43.0


From ec0e32486d580da6083b4910d98fd30e63e3796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 49/90] fix: rexjsonrpc: the reply to a request with bad params
 carries its id

---
 rexjsonrpc/rpcserver.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rexjsonrpc/rpcserver.h b/rexjsonrpc/rpcserver.h
index 7499ff8..c05d2fc 100644
--- a/rexjsonrpc/rpcserver.h
+++ b/rexjsonrpc/rpcserver.h
@@ -420,14 +420,14 @@ public:
 		try {
 			if (val.get_type() != rexjson::obj_type)
 				throw create_rpc_error(RPC_PARSE_ERROR, "top-level object parse error");
+			rexjson::object::const_iterator id_it = val.get_obj().find("id");
+			if (id_it != val.get_obj().end())
+				id = id_it->second;
 			rexjson::object::const_iterator params_it = val.get_obj().find("params");
 			if (params_it != val.get_obj().end() && params_it->second.type() != rexjson::array_type)
 				throw create_rpc_error(RPC_INVALID_REQUEST, "params must be an array");
 			if (params_it != val.get_obj().end())
 				params = params_it->second.get_array();
-			rexjson::object::const_iterator id_it = val.get_obj().find("id");
-			if (id_it != val.get_obj().end())
-				id = id_it->second;
 			rexjson::object::const_iterator method_it = val.get_obj().find("method");
 			if (method_it == val.get_obj().end())
 				throw create_rpc_error(RPC_INVALID_REQUEST, "missing method");
-- 
2.43.0


From 74382971233b6f12bc38ec3f4a689c5251c4ef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 50/90] fix: rexjsonrpc: text that cannot be parsed is answered
 with the parse error code

---
 rexjsonrpc/rpcserver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexjsonrpc/rpcserver.h b/rexjsonrpc/rpcserver.h
index c05d2fc..ca789a0 100644
--- a/rexjsonrpc/rpcserver.h
+++ b/rexjsonrpc/rpcserver.h
@@ -471,7 +471,7 @@ public:
 		} catch (std::exception& e) {
 			rexjson::object errobj;
 			errobj["message"] = e.what();
-			errobj["code"] = RPC_MISC_ERROR;
+			errobj["code"] = RPC_PARSE_ERROR;
 			error = errobj;
 		}
 		ret["result"] = result;
-- 
2.43.0


From eedc58c1f6b267b100f1851b2012508797483d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 51/90] fix: rexjsonrpc: assigning a property to itself or to a
 part of itself reads freed memory

---
 rexjsonrpc/property.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rexjsonrpc/property.cpp b/rexjsonrpc/property.cpp
index 2657849..9fe2d3d 100644
--- a/rexjsonrpc/property.cpp
+++ b/rexjsonrpc/property.cpp
@@ -73,8 +73,9 @@ property& property::operator[](const std::string& name)
 
 property& property::operator=(const property& v)
 {
+	iproperty_object* object = v.object_ ? v.object_->duplicate() : nullptr;
 	delete(object_);
-	object_ = v.object_->duplicate();
+	object_ = object;
 	return *this;
 }
 
-- 
2.43.0


From 11b71beaedfcc074c13c5f0e0c54ba6241e50ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 52/90] fix: rexjsonrpc: copying or asking for the access of an
 empty property dereferences NULL

---
 rexjsonrpc/property.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rexjsonrpc/property.cpp b/rexjsonrpc/property.cpp
index 9fe2d3d..e31bb3a 100644
--- a/rexjsonrpc/property.cpp
+++ b/rexjsonrpc/property.cpp
@@ -35,7 +35,7 @@ property::property()
 
 property::property(const property& v)
 {
-	object_ = v.object_->duplicate();
+	object_ = v.object_ ? v.object_->duplicate() : nullptr;
 }
 
 property::property(property&& v)
@@ -99,6 +99,8 @@ rexjson::value property::get_prop()
 
 property_access property::access() const
 {
+	if (!object_)
+		throw std::runtime_error("Invalid property");
 	return object_->access();
 }
 
-- 
2.43.0


From 1baa68c1b2b7829a146b92ca85a7277686aab1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 53/90] fix: rexjsonrpc: a range that is write only can be read

---
 rexjsonrpc/property.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rexjsonrpc/property.h b/rexjsonrpc/property.h
index 5271f64..e4dd54d 100644
--- a/rexjsonrpc/property.h
+++ b/rexjsonrpc/property.h
@@ -295,6 +295,8 @@ public:
 
 	virtual rexjson::value get_prop() override
 	{
+		if ((base::access_ & property_access::readonly) == 0)
+			throw std::runtime_error("No read access");
 		rexjson::array ret;
 		for (size_t i = 0; i < size_; i++) {
 			ret.push_back(base::get_prop_impl(base::propaddr_ + i));
-- 
2.43.0


From 42d5513c31d46ffbd2dc234a00276186c41bca33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 54/90] fix: rexjsonrpc: a refused write to a range leaves part
 of the values in it

---
 rexjsonrpc/property.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/rexjsonrpc/property.h b/rexjsonrpc/property.h
index e4dd54d..869837d 100644
--- a/rexjsonrpc/property.h
+++ b/rexjsonrpc/property.h
@@ -23,7 +23,9 @@
 #define RPCPROPERTY_H_
 
 #include <assert.h>
+#include <algorithm>
 #include <functional>
+#include <vector>
 #include "rexjson/rexjson++.h"
 
 namespace rexjson {
@@ -282,14 +284,13 @@ public:
 		if ((base::access_ & property_access::writeonly) == 0)
 			throw std::runtime_error("No write access");
 		base::check_hook_(val);
-		size_t i = 0;
 		const rexjson::array& a = val.get_array();
-		for (auto v : a) {
-			if (i >= size_)
-				throw std::range_error("The array of values passed is of bigger size than the property range.");
-			base::set_prop_impl(base::propaddr_ + i, v);
-			++i;
-		}
+		if (a.size() > size_)
+			throw std::range_error("The array of values passed is of bigger size than the property range.");
+		std::vector<T> vals(base::propaddr_, base::propaddr_ + a.size());
+		for (size_t i = 0; i < a.size(); i++)
+			base::set_prop_impl(&vals[i], a[i]);
+		std::copy(vals.begin(), vals.end(), base::propaddr_);
 		base::modified_hook_(base::ctx_);
 	}
 
-- 
2.43.0


From b5f294cff1d3d565ee192ff380ce7b625c9e41fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 55/90] fix: rexjsonrpc: an array index that is not a number
 addresses the first element

---
 rexjsonrpc/property.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rexjsonrpc/property.h b/rexjsonrpc/property.h
index 869837d..592486e 100644
--- a/rexjsonrpc/property.h
+++ b/rexjsonrpc/property.h
@@ -448,6 +448,8 @@ public:
 
 	virtual property& operator[](const std::string& name)
 	{
+		if (name.empty() || name.find_first_not_of("0123456789") != std::string::npos)
+			throw std::range_error("Invalid index");
 		size_t idx = atol(name.c_str());
 		if (idx >= array_.size())
 			throw std::range_error("Invalid index");
-- 
2.43.0


From 6a67bc805f870e30ecfef206f02ee744adf1b277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:54 +0000
Subject: [PATCH 56/90] fix: rpa: the error of an earlier operation is kept by
 an operation on invalid or empty input

---
 rpa/rpastat.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index 1a640b5..e9ddae7 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -69,13 +69,13 @@ int rpa_stat_init(rpastat_t *stat, unsigned int encoding, const char *input, con
 	if (!stat) {
 		return -1;
 	}
+	r_memset(&stat->err, 0, sizeof(stat->err));
 	if (start > end) {
 		return -1;
 	}
 	if (input < start || input > end) {
 		return -1;
 	}
-	r_memset(&stat->err, 0, sizeof(stat->err));
 	size = (long)(end - start);
 	stat->encoding = encoding;
 	stat->start = start;
@@ -191,6 +191,10 @@ long rpa_stat_scan(rpastat_t *stat, rparule_t rid, unsigned int encoding, const
 		return -1;
 	}
 
+	/*
+	 * The error of an earlier operation should not be seen if there is nothing to scan.
+	 */
+	r_memset(&stat->err, 0, sizeof(stat->err));
 	while (input < end) {
 		topsiz = rpa_stat_exec(stat, exec, offset, encoding, input, start, end, NULL);
 		if (topsiz < 0) {
-- 
2.43.0


From 6998d6c46528ec8c3d544d18ab6994261e32f32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:14 +0000
Subject: [PATCH 57/90] fix: rpa: a scan continues in the middle of a character
 after a rule was aborted

---
 rpa/rpastat.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index e9ddae7..87beb51 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -208,12 +208,11 @@ long rpa_stat_scan(rpastat_t *stat, rparule_t rid, unsigned int encoding, const
 			*where = input;
 			return ret;
 		}
-		if (topsiz == 0) {
-			ptp = &stat->instack[0];
-			input += ptp->wcsize;
-		} else {
-			input += 1;
-		}
+		/*
+		 * Continue with the next character, even if the rule was aborted.
+		 */
+		ptp = &stat->instack[0];
+		input += ptp->wcsize;
 	}
 	return 0;
 }
-- 
2.43.0


From 9c77c20d46ffccb1935cbee30aea9276a5145e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:14 +0000
Subject: [PATCH 58/90] fix: rpa: a rule is accepted without the last character
 of ::=

---
 rpa/rpaparser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rpa/rpaparser.c b/rpa/rpaparser.c
index a912117..ad557a7 100644
--- a/rpa/rpaparser.c
+++ b/rpa/rpaparser.c
@@ -586,6 +586,7 @@ static void rpa_production_assign(rpa_parser_t *pa)
 	rvm_codegen_addins(co->cg, rvm_asm(RPA_MATCHCHR_NAN, DA, XX, XX, ':'));
 	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, RPA_COMPILER_CURRENTEXP(co)->endidx, rvm_asm(RVM_BLES, DA, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RPA_MATCHCHR_NAN, DA, XX, XX, '='));
+	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, RPA_COMPILER_CURRENTEXP(co)->endidx, rvm_asm(RVM_BLES, DA, XX, XX, 0));
 
 	rpa_compiler_reference_mop_s(co, "space");
 
-- 
2.43.0


From b1b75809b72efe85ebde94649a785979a649ad49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:14 +0000
Subject: [PATCH 59/90] fix: rpa: the emit, noemit and abort directives are
 accepted without a rule name

---
 rpa/rpaparser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rpa/rpaparser.c b/rpa/rpaparser.c
index ad557a7..eba2b1c 100644
--- a/rpa/rpaparser.c
+++ b/rpa/rpaparser.c
@@ -254,6 +254,7 @@ static void rpa_production_directive_emit(rpa_parser_t *pa)
 	rpa_compiler_reference_nan_s(co, "space");
 	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, RPA_COMPILER_CURRENTEXP(co)->endidx, rvm_asm(RVM_BLES, DA, XX, XX, 0));
 	rpa_compiler_reference_nan_s(co, "rulename");
+	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, RPA_COMPILER_CURRENTEXP(co)->endidx, rvm_asm(RVM_BLES, DA, XX, XX, 0));
 
 	rpa_compiler_rule_end(co);
 }
@@ -285,6 +286,7 @@ static void rpa_production_directive_abort(rpa_parser_t *pa)
 	rpa_compiler_reference_nan_s(co, "space");
 	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, RPA_COMPILER_CURRENTEXP(co)->endidx, rvm_asm(RVM_BLES, DA, XX, XX, 0));
 	rpa_compiler_reference_nan_s(co, "rulename");
+	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, RPA_COMPILER_CURRENTEXP(co)->endidx, rvm_asm(RVM_BLES, DA, XX, XX, 0));
 
 	rpa_compiler_rule_end(co);
 }
@@ -382,6 +384,7 @@ static void rpa_production_directive_noemit(rpa_parser_t *pa)
 	rpa_compiler_reference_nan_s(co, "space");
 	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, RPA_COMPILER_CURRENTEXP(co)->endidx, rvm_asm(RVM_BLES, DA, XX, XX, 0));
 	rpa_compiler_reference_nan_s(co, "rulename");
+	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, RPA_COMPILER_CURRENTEXP(co)->endidx, rvm_asm(RVM_BLES, DA, XX, XX, 0));
 
 	rpa_compiler_rule_end(co);
 }
-- 
2.43.0


From a7aa5d2e796490ef6a58a4b35aac5de9990f0ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:26 +0000
Subject: [PATCH 60/90] fix: rpa: an undefined rule in a left recursive rule is
 reported as an unspecific compile error

---
 rpa/rpadbex.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index ffa1997..e7b14a0 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1982,6 +1982,7 @@ int rpa_dbex_compile(rpadbex_t *dbex)
 	 * By default all production rules emit
 	 */
 	dbex->compiled = 0;
+	r_memset(&dbex->err, 0, sizeof(dbex->err));
 	if (dbex->co)
 		rpa_compiler_destroy(dbex->co);
 	dbex->co = rpa_compiler_create();
@@ -1996,7 +1997,11 @@ int rpa_dbex_compile(rpadbex_t *dbex)
 
 	for (rid = rpa_dbex_first(dbex); rid >= 0; rid = rpa_dbex_next(dbex, rid)) {
 		if (rpa_dbex_compile_rule(dbex, rid) < 0) {
-			RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_COMPILE);
+			/*
+			 * Keep the more specific error, if one was set at the place it was detected.
+			 */
+			if (dbex->err.code == RPA_E_NONE)
+				RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_COMPILE);
 			return -1;
 		}
 	}
-- 
2.43.0


From 4828d14fbe973a819b4a7c3d516189b844e5904a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:26 +0000
Subject: [PATCH 61/90] fix: rpa: a rule that is nested too deep is dropped and
 the load succeeds

---
 rpa/rpadbex.c | 51 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index e7b14a0..b97c198 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1400,13 +1400,38 @@ static long rpa_dbex_copy_handler(rarray_t *records, long rec, rpointer userdata
 }
 
 
-static void rpa_dbex_copyrecords(rpadbex_t *dbex)
+/*
+ * Returns -1 if the records were copied or the record of the item that
+ * cannot be copied, because it is nested too deep.
+ */
+static long rpa_dbex_copyrecords(rpadbex_t *dbex)
 {
-	int i;
+	long i;
 	rarray_t *records = dbex->temprecords;
+	unsigned long length = r_array_length(dbex->records);
+
+	for (i = rpa_recordtree_get(records, 0, RPA_RECORD_START); i >= 0; i = rpa_recordtree_next(records, i, RPA_RECORD_START)) {
+		if (rpa_recordtree_walk(records, i, 0, rpa_dbex_copy_handler, dbex) < 0) {
+			r_array_setlength(dbex->records, length);
+			return i;
+		}
+	}
+	return -1;
+}
 
-	for (i = rpa_recordtree_get(records, 0, RPA_RECORD_START); i >= 0; i = rpa_recordtree_next(records, i, RPA_RECORD_START))
-		rpa_recordtree_walk(records, i, 0, rpa_dbex_copy_handler, dbex);
+
+static void rpa_dbex_setsyntaxerror(rpadbex_t *dbex, const char *text, long offset)
+{
+	long line = 1;
+	const char *ptext;
+
+	for (ptext = text + offset; ptext >= text; --ptext) {
+		if (*ptext == '\n')
+			line += 1;
+	}
+	RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_SYNTAXERROR);
+	RPA_DBEX_SETERRINFO_OFFSET(dbex, offset);
+	RPA_DBEX_SETERRINFO_LINE(dbex, line);
 }
 
 
@@ -1474,7 +1499,7 @@ void rpa_dbex_close(rpadbex_t *dbex)
 
 long rpa_dbex_load(rpadbex_t *dbex, const char *rules, unsigned long size)
 {
-	long ret;
+	long ret, rec;
 	char *text;
 
 	if (!dbex)
@@ -1496,19 +1521,13 @@ long rpa_dbex_load(rpadbex_t *dbex, const char *rules, unsigned long size)
 		return -1;
 	}
 	if (ret != (long)size) {
-		long line = 1;
-		char *ptext = text;
-		ptext += ret;
-		for (line = 1; ptext >= text; --ptext) {
-			if (*ptext == '\n')
-				line += 1;
-		}
-		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_SYNTAXERROR);
-		RPA_DBEX_SETERRINFO_OFFSET(dbex, ret);
-		RPA_DBEX_SETERRINFO_LINE(dbex, line);
+		rpa_dbex_setsyntaxerror(dbex, text, ret);
+		return -1;
+	}
+	if ((rec = rpa_dbex_copyrecords(dbex)) >= 0) {
+		rpa_dbex_setsyntaxerror(dbex, text, (long)(((rparecord_t *)r_array_slot(dbex->temprecords, rec))->input - text));
 		return -1;
 	}
-	rpa_dbex_copyrecords(dbex);
 	return ret;
 }
 
-- 
2.43.0


From 7a46c5b92021320ebf8c397d9e60a738860cfb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:26 +0000
Subject: [PATCH 62/90] fix: rpa: no error is set if the parser fails to read
 the rules

---
 rpa/rpadbex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index b97c198..414a9f5 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1517,7 +1517,7 @@ long rpa_dbex_load(rpadbex_t *dbex, const char *rules, unsigned long size)
 	r_array_add(dbex->text, &text);
 	r_array_setlength(dbex->temprecords, 0);
 	if ((ret = rpa_parser_load(dbex->pa, text, size, dbex->temprecords)) < 0) {
-
+		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_EXECUTION);
 		return -1;
 	}
 	if (ret != (long)size) {
-- 
2.43.0


From a0440eb6f3e2dcd5c631cdba43f3d395cbb91435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:26 +0000
Subject: [PATCH 63/90] fix: rpa: rules loaded after the database was compiled
 are ignored by the bitmaps and the loops of the earlier ones

---
 rpa/rpadbex.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 414a9f5..72bc57e 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1262,6 +1262,21 @@ static int rpa_parseinfo_rule_checkforloop(rpadbex_t *dbex, const char *name, un
 }
 
 
+/*
+ * What was found out about the records depends on the rules that are loaded, and these may have changed.
+ */
+static void rpa_dbex_clearinfo(rpadbex_t *dbex)
+{
+	unsigned long i;
+
+	for (i = 0; i < r_array_length(dbex->records); i++) {
+		rparecord_t *prec = (rparecord_t *)r_array_slot(dbex->records, i);
+		RPA_BITMAP_SETVAL(RPA_RECORD2BITMAP(prec), 0);
+		prec->usertype &= ~(RPA_LOOP_PATH|RPA_NONLOOP_PATH);
+	}
+}
+
+
 static void rpa_dbex_buildloopinfo(rpadbex_t *dbex)
 {
 	size_t i;
@@ -1490,6 +1505,7 @@ void rpa_dbex_close(rpadbex_t *dbex)
 {
 	if (!dbex)
 		return;
+	rpa_dbex_clearinfo(dbex);
 	rpa_dbex_buildruleinfo(dbex);
 	rpa_dbex_buildloopinfo(dbex);
 //	if (dbex->bitmap)
-- 
2.43.0


From 0842759d5909cc8d478c6b3f9999d04e57a49009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:37 +0000
Subject: [PATCH 64/90] fix: rpa: a rule name of 256 or more bytes crashes the
 compiler

---
 rpa/rpacompiler.c | 15 +++++++++------
 rpa/rpacompiler.h |  2 --
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/rpa/rpacompiler.c b/rpa/rpacompiler.c
index 02935c8..996a884 100644
--- a/rpa/rpacompiler.c
+++ b/rpa/rpacompiler.c
@@ -308,17 +308,18 @@ void rpa_compiler_rulepref_set_s(rpa_compiler_t *co, const char *name, long rule
 }
 
 
-#define RPA_RULEBLOB_SIZE (RPA_RULENAME_MAXSIZE + sizeof(rpa_ruledata_t) + 2*sizeof(unsigned long))
+#define RPA_RULEBLOB_SIZE(__namesize__) ((__namesize__) + sizeof(rpa_ruledata_t) + 2*sizeof(unsigned long))
 
 long rpa_compiler_addblob(rpa_compiler_t *co, long ruleid, long ruleuid, unsigned long flags, const char *name, unsigned long namesize)
 {
-	char blob[RPA_RULEBLOB_SIZE];
+	char *blob;
 	char *ptr;
-	rpa_ruledata_t *pblob = (rpa_ruledata_t *)blob;
+	rpa_ruledata_t *pblob;
+	long dataidx;
 
-	if (namesize >= RPA_RULENAME_MAXSIZE)
+	if ((blob = (char *)r_zmalloc(RPA_RULEBLOB_SIZE(namesize))) == NULL)
 		return -1;
-	r_memset(pblob, 0, RPA_RULEBLOB_SIZE);
+	pblob = (rpa_ruledata_t *)blob;
 	ptr = blob + sizeof(rpa_ruledata_t);
 	pblob->name = (unsigned long)(ptr - blob);
 	pblob->ruleid = ruleid;
@@ -328,7 +329,9 @@ long rpa_compiler_addblob(rpa_compiler_t *co, long ruleid, long ruleuid, unsigne
 	r_strncpy(ptr, name, namesize);
 	ptr += namesize;
 	pblob->size = (long)(ptr - blob + 1);
-	return rvm_codegen_adddata_s(co->cg, NULL, pblob, pblob->size);
+	dataidx = rvm_codegen_adddata_s(co->cg, NULL, pblob, pblob->size);
+	r_free(blob);
+	return dataidx;
 }
 
 
diff --git a/rpa/rpacompiler.h b/rpa/rpacompiler.h
index bc3cfea..6e918ef 100644
--- a/rpa/rpacompiler.h
+++ b/rpa/rpacompiler.h
@@ -30,8 +30,6 @@
 extern "C" {
 #endif
 
-#define RPA_RULENAME_MAXSIZE 256
-
 
 #define RPA_COMPILER_CURRENTEXP(__co__) ((rpa_ruledef_t*)r_array_lastslot((__co__)->expressions))
 
-- 
2.43.0


From a7c2f8dcf1146fe05ce89285bff4a467fbd35012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:39 +0000
Subject: [PATCH 65/90] fix: rpa: closing a compiled database again makes every
 rule run the code of the first one

---
 rpa/rpadbex.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 72bc57e..a661dee 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1505,6 +1505,12 @@ void rpa_dbex_close(rpadbex_t *dbex)
 {
 	if (!dbex)
 		return;
+	if (dbex->rules) {
+		/*
+		 * It is closed already, the code of the rules should not be forgotten.
+		 */
+		return;
+	}
 	rpa_dbex_clearinfo(dbex);
 	rpa_dbex_buildruleinfo(dbex);
 	rpa_dbex_buildloopinfo(dbex);
-- 
2.43.0


From af726a20c962c406c41b6b4093265cc991fe61fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 66/90] fix: rlib: r_spinlock_unlock releases the lock with a
 plain store

Nothing kept the writes made while holding the lock from being moved after the
store, by the compiler or by the processor, so the next owner could see the
protected data half updated. Release it with the atomic operation that takes it.
---
 rlib/rspinlock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlib/rspinlock.c b/rlib/rspinlock.c
index e098a69..a331166 100644
--- a/rlib/rspinlock.c
+++ b/rlib/rspinlock.c
@@ -41,7 +41,7 @@ void r_spinlock_lock(rspinlock_t *lock)
 
 void r_spinlock_unlock(rspinlock_t *lock)
 {
-	*lock = 0;
+	r_atomic_compare_and_exchange(lock, R_SPINLOCK_BUSY, 0);
 }
 
 
-- 
2.43.0


From 02e4359a14ae246ba5a9606511db0dc39e121c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:50 +0000
Subject: [PATCH 67/90] fix: rexcc: the options are read after rex_cc_destroy
 freed them

---
 rexcc/rexccmain.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rexcc/rexccmain.c b/rexcc/rexccmain.c
index 4ba073e..21db9c0 100644
--- a/rexcc/rexccmain.c
+++ b/rexcc/rexccmain.c
@@ -99,6 +99,7 @@ int main(int argc, const char *argv[])
 {
 	rexcc_t *pCC;
 	int i, ret = 0, dumponly = 0;
+	int showtime = 0;
 	int withsubstates = 0;
 	FILE *devnull = NULL;
 	rexdb_t *tempdb = NULL;
@@ -113,6 +114,7 @@ int main(int argc, const char *argv[])
 	for (i = 1; i < argc; i++) {
 		if (strcmp(argv[i], "-t") == 0) {
 			pCC->showtime = 1;
+			showtime = 1;
 		}
 	}
 	for (i = 1; i < argc; i++) {
@@ -204,7 +206,7 @@ int main(int argc, const char *argv[])
 
 end:
 	rex_cc_destroy(pCC);
-	if (pCC->showtime) {
+	if (showtime) {
 		fprintf(stdout, "memory: %ld KB (leaked %ld Bytes)\n", (long)r_debug_get_maxmem()/1024, (long)r_debug_get_allocmem());
 	}
 	if (devnull)
-- 
2.43.0


From a2c993a2f563dab2b91d0d95b205ece62033cc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:38 +0000
Subject: [PATCH 68/90] fix: rexcc: a prolog line that ends with %% is taken
 for the delimiter

---
 rexcc/rexcc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexcc/rexcc.c b/rexcc/rexcc.c
index 9e800b1..cb34409 100644
--- a/rexcc/rexcc.c
+++ b/rexcc/rexcc.c
@@ -433,7 +433,7 @@ int rex_cc_parse(rexcc_t *pCC)
 	pCC->prolog.s = pCC->input;
 	pCC->prolog.size = 0;
 	while (pCC->input + 3 < pCC->end) {
-		if (*pCC->input == '%' && *(pCC->input+1) == '%' && (*(pCC->input+2) == '\n' || (*(pCC->input+2) == '\r' && *(pCC->input+3) == '\n'))) {
+		if ((pCC->input == pCC->start || *(pCC->input-1) == '\n') && *pCC->input == '%' && *(pCC->input+1) == '%' && (*(pCC->input+2) == '\n' || (*(pCC->input+2) == '\r' && *(pCC->input+3) == '\n'))) {
 			break;
 		}
 		pCC->prolog.size += 1;
-- 
2.43.0


From f35363d3f6910e2fb37e09e2523241a371bcc927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:38 +0000
Subject: [PATCH 69/90] fix: rexcc: an expression that ends with an escaped
 backslash swallows the next line

---
 rexcc/rexcc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexcc/rexcc.c b/rexcc/rexcc.c
index cb34409..6e6f09c 100644
--- a/rexcc/rexcc.c
+++ b/rexcc/rexcc.c
@@ -58,7 +58,7 @@ static struct tokeninfo_s tokens[] = {
 		{REXCC_TOKEN_IDENTIFIER,	"identifier",	"([^\\t\\r\\n\'\" ]+|\"([^\"\\n]|\\\\\")*\")+|'.+'"},
 		{REXCC_TOKEN_SPACE,			"space",		"[ \\t]+"},
 		{REXCC_TOKEN_CR,			"cr ",			"[\\r]?[\\n]"},
-		{REXCC_TOKEN_REGEX,			"regex",		"[ \\t](\\\\[\\r]?[\\n]|.)+\\r?\\n"},
+		{REXCC_TOKEN_REGEX,			"regex",		"[ \\t](\\\\[\\r]?[\\n]|\\\\.|[^\\\\\\n])+\\r?\\n"},
 		{0, NULL, NULL},
 };
 
-- 
2.43.0


From 0a110a81cfdd30444e99484abbb50146538cd4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:38 +0000
Subject: [PATCH 70/90] fix: rexcc: a quoted token name extends to the last
 quote of the line

---
 rexcc/rexcc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexcc/rexcc.c b/rexcc/rexcc.c
index 6e6f09c..aa9d552 100644
--- a/rexcc/rexcc.c
+++ b/rexcc/rexcc.c
@@ -55,7 +55,7 @@ struct parseinfo_s {
 
 static struct tokeninfo_s tokens[] = {
 		{REXCC_TOKEN_DELIMITER,		"delimiter",	"%%[ \\t]?[\\r]?[\\n]"},
-		{REXCC_TOKEN_IDENTIFIER,	"identifier",	"([^\\t\\r\\n\'\" ]+|\"([^\"\\n]|\\\\\")*\")+|'.+'"},
+		{REXCC_TOKEN_IDENTIFIER,	"identifier",	"([^\\t\\r\\n\'\" ]+|\"([^\"\\\\\\n]|\\\\.)*\")+|'([^'\\\\\\n]|\\\\.)+'"},
 		{REXCC_TOKEN_SPACE,			"space",		"[ \\t]+"},
 		{REXCC_TOKEN_CR,			"cr ",			"[\\r]?[\\n]"},
 		{REXCC_TOKEN_REGEX,			"regex",		"[ \\t](\\\\[\\r]?[\\n]|\\\\.|[^\\\\\\n])+\\r?\\n"},
-- 
2.43.0


From 22db6cc097b823400f3c535bfa9437faca4af03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:12 +0000
Subject: [PATCH 71/90] fix: rexgrep: the exit status is 1 even when something
 matches

---
 rexgrep/rexgrep.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rexgrep/rexgrep.c b/rexgrep/rexgrep.c
index 9af468e..ef5638f 100644
--- a/rexgrep/rexgrep.c
+++ b/rexgrep/rexgrep.c
@@ -200,6 +200,7 @@ static int rex_grep_dfascan(rexgrep_t *pGrep, const char* start, const char* end
 				REX_GREP_SHIFT(shifter, 1, REX_HASH_BYTES, REX_HASH_BITS, nextshift, end);
 			}
 		} else if (ret > 0) {
+			pGrep->ret = 0;
 			if (pGrep->showfilename) {
 				fprintf(stdout, "%s:", (const char*)pGrep->filename);
 			}
@@ -238,6 +239,7 @@ static int rex_grep_nfascan(rexgrep_t *pGrep, const char* start, const char* end
 			 */
 			return -1;
 		} else if (ret > 0) {
+			pGrep->ret = 0;
 			if (pGrep->showfilename) {
 				fprintf(stdout, "%s:", (const char*)pGrep->filename);
 			}
-- 
2.43.0


From 7cd70cff27fbc1dda68b7e6770ac22be1e757ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:13 +0000
Subject: [PATCH 72/90] fix: rexgrep: the text given with -s is searched as a
 file, too

---
 rexgrep/rexgrep-main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexgrep/rexgrep-main.c b/rexgrep/rexgrep-main.c
index 95b9715..7c6121c 100644
--- a/rexgrep/rexgrep-main.c
+++ b/rexgrep/rexgrep-main.c
@@ -328,7 +328,7 @@ int main(int argc, const char *argv[])
 		if (argv[i][0] != '-') {
 			++scanned;
 			rex_grep_scan_path(pGrep, argv[i]);
-		} else if (argv[i][1] == 'e' || argv[i][1] == 'f' || argv[i][1] == 'b'){
+		} else if (argv[i][1] == 'e' || argv[i][1] == 'f' || argv[i][1] == 'b' || argv[i][1] == 's'){
 			++i;
 		}
 		
-- 
2.43.0


From 638cbfc9aa2102a394a2829435b970c1633cd0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:13 +0000
Subject: [PATCH 73/90] fix: rexgrep: the options are read after
 rex_grep_destroy freed them

---
 rexgrep/rexgrep-main.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rexgrep/rexgrep-main.c b/rexgrep/rexgrep-main.c
index 7c6121c..316e96f 100644
--- a/rexgrep/rexgrep-main.c
+++ b/rexgrep/rexgrep-main.c
@@ -376,9 +376,12 @@ end:
 					(unsigned long long) 1000 * sckb / milsec);
 		}
 	}
+#ifdef R_DEBUG_MEMALLOC
+	scanned = pGrep->showtime;
+#endif
 	rex_grep_destroy(pGrep);
 #ifdef R_DEBUG_MEMALLOC
-	if (pGrep->showtime) {
+	if (scanned) {
 		fprintf(stdout, "\tMemory Allocator: %ld KB (leaked %ld Bytes)\n", (long)r_debug_get_maxmem() / 1024, (long)r_debug_get_allocmem());
 	}
 #endif
-- 
2.43.0


From 8846fa10357c39d4f7f32049020e0187d6a9b71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:13 +0000
Subject: [PATCH 74/90] fix: rpagrep: the exit status is read after
 rpa_grep_destroy freed it

---
 rpagrep/unix/rpagrep-main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpagrep/unix/rpagrep-main.c b/rpagrep/unix/rpagrep-main.c
index 921ed4d..be1abfe 100644
--- a/rpagrep/unix/rpagrep-main.c
+++ b/rpagrep/unix/rpagrep-main.c
@@ -313,8 +313,9 @@ end:
 
 	if (devnull)
 		fclose(devnull);
+	ret = pGrep->ret;
 	rpa_grep_destroy(pGrep);
-	return pGrep->ret;
+	return ret;
 
 error:
 	if (devnull)
-- 
2.43.0


From 1d4c334d5894927e9cf7b51d35d2ba1577df12cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:13 +0000
Subject: [PATCH 75/90] fix: rpagrep: the text given with -s is searched as a
 file, too

---
 rpagrep/unix/rpagrep-main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpagrep/unix/rpagrep-main.c b/rpagrep/unix/rpagrep-main.c
index be1abfe..08168d7 100644
--- a/rpagrep/unix/rpagrep-main.c
+++ b/rpagrep/unix/rpagrep-main.c
@@ -276,7 +276,7 @@ int main(int argc, const char *argv[])
 		if (argv[i][0] != '-') {
 			++scanned;
 			rpa_grep_scan_path(pGrep, argv[i]);
-		} else if (argv[i][1] == 'e' || argv[i][1] == 'f' || argv[i][1] == 'c' || argv[i][1] == 'C'){
+		} else if (argv[i][1] == 'e' || argv[i][1] == 'f' || argv[i][1] == 'c' || argv[i][1] == 'C' || argv[i][1] == 's'){
 			++i;
 		}
 		
-- 
2.43.0


From c4e2012375b877f606344b88d3c83edb96600bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:13 +0000
Subject: [PATCH 76/90] fix: rpagrep: line mode prints nothing when the text
 has no newline

---
 rpagrep/rpagrep.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/rpagrep/rpagrep.c b/rpagrep/rpagrep.c
index 85cd361..bcd524b 100644
--- a/rpagrep/rpagrep.c
+++ b/rpagrep/rpagrep.c
@@ -364,7 +364,6 @@ int rpa_grep_scan_lines(rpa_grep_t *pGrep, const char* buffer, unsigned long siz
 	rpastat_t *hStat;
 	const char *matched;
 	int displayed = 0;
-	unsigned long lines = 0;
 	const char *end = buffer + size, *lstart = buffer, *lend;
 
 	hStat = rpa_stat_create(pGrep->hDbex, 0);
@@ -376,7 +375,6 @@ again:
 	if (pGrep->encoding == RPA_ENCODING_UTF16LE || pGrep->encoding == RPA_ENCODING_ICASE_UTF16LE) {
 		for (lend = lstart; lend < end; lend += sizeof(unsigned short)) {
 			if (*((unsigned short*)lend) == L'\n') {
-				++lines;
 				lend += sizeof(unsigned short);
 				break;
 			}
@@ -384,14 +382,11 @@ again:
 	} else {
 		for (lend = lstart; lend < end; lend += sizeof(unsigned char)) {
 			if (*((unsigned char*)lend) == '\n') {
-				++lines;
 				lend += sizeof(unsigned char);
 				break;
 			}
 		}
 	}
-	if (!lines)
-		return 0;
 	ret = rpa_stat_scan(hStat, pGrep->hPattern, pGrep->encoding, lstart, lstart, lend, &matched);
 	if (ret > 0) {
 		rpa_grep_matchfound(pGrep);
-- 
2.43.0


From 29d0301a8a4da3041c91bc9c97d80444eeb2f04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:13 +0000
Subject: [PATCH 77/90] fix: rpagrep: line mode reads past the end of a UTF-16
 text with an odd number of bytes

---
 rpagrep/rpagrep.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rpagrep/rpagrep.c b/rpagrep/rpagrep.c
index bcd524b..fd37e8d 100644
--- a/rpagrep/rpagrep.c
+++ b/rpagrep/rpagrep.c
@@ -374,6 +374,10 @@ int rpa_grep_scan_lines(rpa_grep_t *pGrep, const char* buffer, unsigned long siz
 again:
 	if (pGrep->encoding == RPA_ENCODING_UTF16LE || pGrep->encoding == RPA_ENCODING_ICASE_UTF16LE) {
 		for (lend = lstart; lend < end; lend += sizeof(unsigned short)) {
+			if (end - lend < (long)sizeof(unsigned short)) {
+				lend = end;
+				break;
+			}
 			if (*((unsigned short*)lend) == L'\n') {
 				lend += sizeof(unsigned short);
 				break;
-- 
2.43.0


From 1bc5f364b125879c25adc524f538b20bf2594f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:13 +0000
Subject: [PATCH 78/90] fix: rpagrep: dumping the parse records reads past the
 last one

---
 rpagrep/rpagrep.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rpagrep/rpagrep.c b/rpagrep/rpagrep.c
index fd37e8d..d9f288b 100644
--- a/rpagrep/rpagrep.c
+++ b/rpagrep/rpagrep.c
@@ -239,10 +239,11 @@ void dump_ast_records(rarray_t *records)
 	long i = 0;
 	rparecord_t *prec = NULL;
 
-	prec = (rparecord_t *)r_array_slot(records, i);
-	while (prec->type & (RPA_RECORD_START | RPA_RECORD_END)) {
+	for (i = 0; i < (long)rpa_records_length(records); i++) {
+		prec = (rparecord_t *)r_array_slot(records, i);
+		if (!(prec->type & (RPA_RECORD_START | RPA_RECORD_END)))
+			break;
 		rpa_record_dump(records, i, 0);
-		prec = (rparecord_t *)r_array_slot(records, ++i);
 	}
 }
 
-- 
2.43.0


From 4f9dd02f5f39503bad2dab97138a264ea9d5f88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:13 +0000
Subject: [PATCH 79/90] fix: rpagrep: the characters U+00A0 to U+00FF are
 printed as NUL

---
 rpagrep/unix/rpagrepdep.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpagrep/unix/rpagrepdep.c b/rpagrep/unix/rpagrepdep.c
index 99a3241..73c8448 100644
--- a/rpagrep/unix/rpagrepdep.c
+++ b/rpagrep/unix/rpagrepdep.c
@@ -131,7 +131,7 @@ void rpa_grep_output_char(int c)
 
 	if ((unsigned int)c < 32 && !(c == '\t' || c == '\n' || c == '\r')) {
 		c = garbage;
-	} else if (c >= 127 && c <= 255) {
+	} else if (c >= 127 && c < 160) {
 		c = garbage;
 	}
 
-- 
2.43.0


From 6c6f368e7570ddd113b04f79062f64fa98f07c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:27 +0000
Subject: [PATCH 80/90] fix: rexgrep: leaving a directory given by a relative
 name reads in front of its name

---
 rexgrep/unix/fsenum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexgrep/unix/fsenum.c b/rexgrep/unix/fsenum.c
index 0c98d5d..d31cfed 100644
--- a/rexgrep/unix/fsenum.c
+++ b/rexgrep/unix/fsenum.c
@@ -229,7 +229,7 @@ static int fsePopDir(fs_enum_ptr pFSE)
 		*pszEnd = '\0';
 		if (pFSE->iDirOffset >= 0)
 		{
-			if (*(pszEnd - 1) == CH_SLASH)
+			if (pszEnd > pFSE->szCurDir && *(pszEnd - 1) == CH_SLASH)
 				break;
 		}
 
-- 
2.43.0


From dbe271d8731f1fba17d493dd9b5d24220b1f0ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:27 +0000
Subject: [PATCH 81/90] fix: rexgrep: a directory that cannot be read crashes

---
 rexgrep/unix/fsenum.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rexgrep/unix/fsenum.c b/rexgrep/unix/fsenum.c
index d31cfed..9ebed78 100644
--- a/rexgrep/unix/fsenum.c
+++ b/rexgrep/unix/fsenum.c
@@ -64,7 +64,10 @@ fs_enum_ptr fse_create(const char * pszStartDir)
 		return NULL;
 	memset(pFSE, 0, sizeof(*pFSE));
 	pFSE->iDirOffset = -1;
-	fsePushDir(pFSE, pszStartDir ? pszStartDir : SZ_SLASH);
+	if (fsePushDir(pFSE, pszStartDir ? pszStartDir : SZ_SLASH) < 0) {
+		free((void*) pFSE);
+		return NULL;
+	}
 	
 	return pFSE;
 }
-- 
2.43.0


From ae7ab4403e1c5b7f70da798f672e0e9c64ef42b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:28 +0000
Subject: [PATCH 82/90] fix: rpagrep: leaving a directory given by a relative
 name reads in front of its name

---
 rpagrep/unix/fsenum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpagrep/unix/fsenum.c b/rpagrep/unix/fsenum.c
index 0c98d5d..d31cfed 100644
--- a/rpagrep/unix/fsenum.c
+++ b/rpagrep/unix/fsenum.c
@@ -229,7 +229,7 @@ static int fsePopDir(fs_enum_ptr pFSE)
 		*pszEnd = '\0';
 		if (pFSE->iDirOffset >= 0)
 		{
-			if (*(pszEnd - 1) == CH_SLASH)
+			if (pszEnd > pFSE->szCurDir && *(pszEnd - 1) == CH_SLASH)
 				break;
 		}
 
-- 
2.43.0


From c11056ef5efd2198a7009cb2ddf057aebe16ed05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:28 +0000
Subject: [PATCH 83/90] fix: rpagrep: a directory that cannot be read crashes

---
 rpagrep/unix/fsenum.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rpagrep/unix/fsenum.c b/rpagrep/unix/fsenum.c
index d31cfed..9ebed78 100644
--- a/rpagrep/unix/fsenum.c
+++ b/rpagrep/unix/fsenum.c
@@ -64,7 +64,10 @@ fs_enum_ptr fse_create(const char * pszStartDir)
 		return NULL;
 	memset(pFSE, 0, sizeof(*pFSE));
 	pFSE->iDirOffset = -1;
-	fsePushDir(pFSE, pszStartDir ? pszStartDir : SZ_SLASH);
+	if (fsePushDir(pFSE, pszStartDir ? pszStartDir : SZ_SLASH) < 0) {
+		free((void*) pFSE);
+		return NULL;
+	}
 	
 	return pFSE;
 }
-- 
2.43.0


From f3344fff1287f2d51874dca8e23601f36251ab1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:55 +0000
Subject: [PATCH 84/90] fix: rex: a NUL character in an expression was skipped
 or refused

---
 rex/rexcompiler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index df9cfbb..f035cb2 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -84,7 +84,7 @@ static int rex_compiler_isxdigit(int c)
 
 static int rex_compiler_isblank(rexcompiler_t *co, int c)
 {
-	return r_strchr(co->blankchars, c) ? 1 : 0;
+	return (c && r_strchr(co->blankchars, c)) ? 1 : 0;
 }
 
 
@@ -426,7 +426,7 @@ static int rex_compiler_qfactor(rexcompiler_t *co, rexdb_t *rexdb)
 	rexstate_t *srcstate;
 	size_t nstates, i;
 
-	if (co->token < 0x80 && strchr("{}*?+]\n\r)", co->token)) {
+	if (co->token > 0 && co->token < 0x80 && strchr("{}*?+]\n\r)", co->token)) {
 		/*
 		 * Unexpected char.
 		 */
-- 
2.43.0


From be5fd472e32c4a33cb17dca359b741d4646f0d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:10 +0000
Subject: [PATCH 85/90] fix: rvm: removing collected objects from a chunked
 array or named array spoilt its size and never ended on cycles

---
 rvm/rvmreg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rvm/rvmreg.c b/rvm/rvmreg.c
index b639fcb..1888ccb 100644
--- a/rvm/rvmreg.c
+++ b/rvm/rvmreg.c
@@ -73,7 +73,7 @@ void rvm_reg_array_unref_gcdata(robject_t *obj)
 			/*
 			 * set the size to 0, to prevent circular references to come back here
 			 */
-			array->alloc_size = 0;
+			array->len = 0;
 			for (i = 0; i < size; i++) {
 				r = (rvmreg_t*) r_carray_slot(array, i);
 				if (rvm_reg_tstflag(r, RVM_INFOBIT_ROBJECT)) {
@@ -93,7 +93,7 @@ void rvm_reg_array_unref_gcdata(robject_t *obj)
 			/*
 			 * Restore the size
 			 */
-			array->alloc_size = size;
+			array->len = size;
 		}
 	}
 }
-- 
2.43.0


From a5b8f365e32ab5701895bc78cdaafc71c608a2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:10 +0000
Subject: [PATCH 86/90] fix: rvm: copying a register that holds an object lost
 the object's contents

---
 rvm/rvmreg.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rvm/rvmreg.c b/rvm/rvmreg.c
index 1888ccb..2bf1258 100644
--- a/rvm/rvmreg.c
+++ b/rvm/rvmreg.c
@@ -267,8 +267,10 @@ rvmreg_t *rvm_reg_copy(rvmreg_t *dst, const rvmreg_t *src)
 {
 	if (dst != src)
 		*dst = *src;
-	if (rvm_reg_tstflag(dst, RVM_INFOBIT_ROBJECT))
-		dst->v.p = r_object_copy(dst->v.p);
+	if (rvm_reg_tstflag(dst, RVM_INFOBIT_ROBJECT)) {
+		robject_t *obj = (robject_t*)dst->v.p;
+		dst->v.p = obj->copy ? obj->copy(obj) : r_object_copy(obj);
+	}
 	return dst;
 }
 
-- 
2.43.0


From 7859c571e8d66340426808deb671d87bcc53b2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:10 +0000
Subject: [PATCH 87/90] fix: rvm: rvm_reg_double returned the bits of a double
 as a number

---
 rvm/rvmreg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rvm/rvmreg.c b/rvm/rvmreg.c
index 2bf1258..59f8694 100644
--- a/rvm/rvmreg.c
+++ b/rvm/rvmreg.c
@@ -440,6 +440,8 @@ rboolean rvm_reg_boolean(const rvmreg_t *src)
 double rvm_reg_double(const rvmreg_t *src)
 {
 	R_ASSERT(src);
+	if (rvm_reg_gettype(src) == RVM_DTYPE_DOUBLE)
+		return RVM_REG_GETD(src);
 	return (double)RVM_REG_GETL(src);
 }
 
-- 
2.43.0


From e2eb5dcfc9fe513b24bd80ced32e3f151aa6e47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:34 +0000
Subject: [PATCH 88/90] fix: rpa: a grammar text was lost behind a NUL
 character

---
 rpa/rpadbex.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index a661dee..aeb3cd4 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1534,8 +1534,9 @@ long rpa_dbex_load(rpadbex_t *dbex, const char *rules, unsigned long size)
 		return -1;
 	}
 
-	text = r_strndup(rules, size);
+	text = (char*)r_zmalloc(size + 1);
 	R_ASSERT(text);
+	r_memcpy(text, rules, size);
 	r_array_add(dbex->text, &text);
 	r_array_setlength(dbex->temprecords, 0);
 	if ((ret = rpa_parser_load(dbex->pa, text, size, dbex->temprecords)) < 0) {
@@ -1845,7 +1846,7 @@ long rpa_dbex_strncpy(rpadbex_t *dbex, char *dst, rparule_t rid, unsigned long n
 	size = prec->inputsiz;
 	if (n < size)
 		size = n;
-	r_strncpy(dst, prec->input, size);
+	r_memcpy(dst, prec->input, size);
 	return size;
 }
 
-- 
2.43.0


From 03d38b243f8fd7b037ba682d908ff0b82db865b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:19 +0000
Subject: [PATCH 89/90] fix: rpa: the name of a rule that was not found was
 read from in front of the table

rpa_dbex_name() refused ids behind the last rule, but not the negative id
that a failed lookup returns.
---
 rpa/rpadbex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index aeb3cd4..9082de8 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1861,7 +1861,7 @@ const char *rpa_dbex_name(rpadbex_t *dbex, rparule_t rid)
 		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_NOTCLOSED);
 		return NULL;
 	}
-	if (rid >= (rparule_t)r_array_length(dbex->rules->members))
+	if (rid < 0 || rid >= (rparule_t)r_array_length(dbex->rules->members))
 		return NULL;
 	name = r_array_index(dbex->rules->names, rid, rstr_t*);
 	return name->str;
-- 
2.43.0


From 53fe6ed062049378341c4043ede2f8fd252bb761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:19 +0000
Subject: [PATCH 90/90] fix: rpa: listing the user ids of a database that is
 not closed leaked memory

rpa_dbex_dumpuids() allocated its buffer before the checks that make it
return early.
---
 rpa/rpadbex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 9082de8..a262e60 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1761,7 +1761,7 @@ int rpa_dbex_dumpuids(rpadbex_t *dbex)
 	unsigned long i;
 	long rec;
 	rpa_ruleinfo_t *info;
-	char *buffer = r_zmalloc(32 * sizeof(char));
+	char *buffer;
 
 	if (!dbex)
 		return -1;
@@ -1769,6 +1769,7 @@ int rpa_dbex_dumpuids(rpadbex_t *dbex)
 		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_NOTCLOSED);
 		return -1;
 	}
+	buffer = r_zmalloc(32 * sizeof(char));
 	for (i = 0; i < r_array_length(dbex->rules->names); i++) {
 		info = (rpa_ruleinfo_t *)r_harray_get(dbex->rules, i);
 		if (info->type == RPA_RULEINFO_DIRECTIVE) {
-- 
2.43.0

