From e8fc2c3f0f681584cb61d0c08ecf109f0a823dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 01/17] fix: line: let a number directly after a closed number
 begin a new LB25 sequence

---
 src/line.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/line.c b/src/line.c
index 5355143..aac861e 100644
--- a/src/line.c
+++ b/src/line.c
@@ -113,7 +113,8 @@ next_line_break(HERODOTUS_READER *r)
 			 *     and one (CL | CP) to the left of the middle
 			 *     spot
 			 */
-			if ((lb25_level == 0 || lb25_level == 1) &&
+			if ((lb25_level == 0 || lb25_level == 1 ||
+			     lb25_level == 3) &&
 			    cp0_prop == LINE_BREAK_PROP_NU) {
 				/* sequence has begun */
 				lb25_level = 1;
-- 
2.43.0


From 5df7f0538390342a6bcf11baa380944f3e881d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 02/17] fix: line: treat CM and ZWJ after a space as AL (LB10)

---
 src/line.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/line.c b/src/line.c
index aac861e..5f04c81 100644
--- a/src/line.c
+++ b/src/line.c
@@ -139,6 +139,12 @@ next_line_break(HERODOTUS_READER *r)
 			}
 
 			last_non_cm_or_zwj_prop = cp0_prop;
+		} else if (last_non_cm_or_zwj_prop == LINE_BREAK_PROP_SP) {
+			/*
+			 * LB10: there is nothing to combine with after a
+			 * space, treat the CM or ZWJ as an AL
+			 */
+			last_non_cm_or_zwj_prop = LINE_BREAK_PROP_AL;
 		}
 
 		/*
-- 
2.43.0


From 9fd180ea42eb81100bd8df2e9a46362c7318222b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 03/17] fix: line: skip combining marks in the LB25 lookahead
 (LB9)

---
 src/line.c | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/line.c b/src/line.c
index 5f04c81..5227445 100644
--- a/src/line.c
+++ b/src/line.c
@@ -22,8 +22,9 @@ static size_t
 next_line_break(HERODOTUS_READER *r)
 {
 	HERODOTUS_READER tmp;
-	enum line_break_property cp0_prop, cp1_prop, last_non_cm_or_zwj_prop,
-		last_non_sp_prop, last_non_sp_cm_or_zwj_prop;
+	enum line_break_property cp0_prop, cp1_prop, cp2_prop,
+		last_non_cm_or_zwj_prop, last_non_sp_prop,
+		last_non_sp_cm_or_zwj_prop;
 	uint_least32_t cp;
 	uint_least8_t lb25_level = 0;
 	bool lb21a_flag = false, ri_even = true;
@@ -378,12 +379,24 @@ next_line_break(HERODOTUS_READER *r)
 			 */
 			herodotus_reader_copy(r, &tmp);
 			herodotus_read_codepoint(&tmp, true, &cp);
-			if (herodotus_read_codepoint(&tmp, true, &cp) ==
-			            HERODOTUS_STATUS_SUCCESS &&
-			    (cp1_prop == LINE_BREAK_PROP_OP_WITHOUT_EAW_HWF ||
-			     cp1_prop == LINE_BREAK_PROP_OP_WITH_EAW_HWF ||
-			     cp1_prop == LINE_BREAK_PROP_HY)) {
-				if (get_break_prop(cp) == LINE_BREAK_PROP_NU) {
+			if (cp1_prop == LINE_BREAK_PROP_OP_WITHOUT_EAW_HWF ||
+			    cp1_prop == LINE_BREAK_PROP_OP_WITH_EAW_HWF ||
+			    cp1_prop == LINE_BREAK_PROP_HY) {
+				/*
+				 * find the next property, skipping those
+				 * that combine with cp1 (LB9)
+				 */
+				cp2_prop = NUM_LINE_BREAK_PROPS;
+				while (herodotus_read_codepoint(&tmp, true,
+				                                &cp) ==
+				       HERODOTUS_STATUS_SUCCESS) {
+					cp2_prop = get_break_prop(cp);
+					if (cp2_prop != LINE_BREAK_PROP_CM &&
+					    cp2_prop != LINE_BREAK_PROP_ZWJ) {
+						break;
+					}
+				}
+				if (cp2_prop == LINE_BREAK_PROP_NU) {
 					continue;
 				}
 			}
-- 
2.43.0


From 8fdf7a8bd9305922180110bf061b7411b5d8a182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 04/17] fix: line: unassigned pictographs are ID in LB23a

---
 src/line.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/line.c b/src/line.c
index 5227445..be3604c 100644
--- a/src/line.c
+++ b/src/line.c
@@ -340,11 +340,14 @@ next_line_break(HERODOTUS_READER *r)
 		/* LB23a */
 		if (last_non_cm_or_zwj_prop == LINE_BREAK_PROP_PR &&
 		    (cp1_prop == LINE_BREAK_PROP_ID ||
+		     cp1_prop == LINE_BREAK_PROP_BOTH_CN_EXTPICT ||
 		     cp1_prop == LINE_BREAK_PROP_EB ||
 		     cp1_prop == LINE_BREAK_PROP_EM)) {
 			continue;
 		}
 		if ((last_non_cm_or_zwj_prop == LINE_BREAK_PROP_ID ||
+		     last_non_cm_or_zwj_prop ==
+		             LINE_BREAK_PROP_BOTH_CN_EXTPICT ||
 		     last_non_cm_or_zwj_prop == LINE_BREAK_PROP_EB ||
 		     last_non_cm_or_zwj_prop == LINE_BREAK_PROP_EM) &&
 		    cp1_prop == LINE_BREAK_PROP_PO) {
-- 
2.43.0


From f9308441bd1ac145f525f4430c9d791e36874c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:39 +0000
Subject: [PATCH 05/17] fix: sentence: a terminator after Close* Sp* begins a
 new terminator sequence

---
 src/sentence.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/sentence.c b/src/sentence.c
index 291c7f4..c6161d8 100644
--- a/src/sentence.c
+++ b/src/sentence.c
@@ -67,10 +67,8 @@ sentence_skip_shift_callback(uint_least8_t prop, void *s)
 	 *     left of the middle spot.
 	 *
 	 */
-	if ((state->aterm_close_sp_level == 0 ||
-	     state->aterm_close_sp_level == 1) &&
-	    prop == SENTENCE_BREAK_PROP_ATERM) {
-		/* sequence has begun */
+	if (prop == SENTENCE_BREAK_PROP_ATERM) {
+		/* sequence has begun (anew) */
 		state->aterm_close_sp_level = 1;
 	} else if ((state->aterm_close_sp_level == 1 ||
 	            state->aterm_close_sp_level == 2) &&
@@ -88,11 +86,9 @@ sentence_skip_shift_callback(uint_least8_t prop, void *s)
 		state->aterm_close_sp_level = 0;
 	}
 
-	if ((state->saterm_close_sp_parasep_level == 0 ||
-	     state->saterm_close_sp_parasep_level == 1) &&
-	    (prop == SENTENCE_BREAK_PROP_STERM ||
-	     prop == SENTENCE_BREAK_PROP_ATERM)) {
-		/* sequence has begun */
+	if (prop == SENTENCE_BREAK_PROP_STERM ||
+	    prop == SENTENCE_BREAK_PROP_ATERM) {
+		/* sequence has begun (anew) */
 		state->saterm_close_sp_parasep_level = 1;
 	} else if ((state->saterm_close_sp_parasep_level == 1 ||
 	            state->saterm_close_sp_parasep_level == 2) &&
-- 
2.43.0


From d6f4d4ee8e7f71bc719010df1995e4f9fb2687b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:21 +0000
Subject: [PATCH 06/17] fix: gen/bidirectional: brackets are equivalent only by
 canonical decomposition (BD16)

---
 gen/bidirectional.c | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/gen/bidirectional.c b/gen/bidirectional.c
index b4a4fb7..ebfca4b 100644
--- a/gen/bidirectional.c
+++ b/gen/bidirectional.c
@@ -143,7 +143,6 @@ static int
 decomposition_callback(const char *file, char **field, size_t nfields,
                        char *comment, void *payload)
 {
-	char *p;
 	struct decomposition_payload *decomp =
 		(struct decomposition_payload *)payload;
 	uint_least32_t cp;
@@ -160,24 +159,13 @@ decomposition_callback(const char *file, char **field, size_t nfields,
 
 	if (decomp->cp == cp) {
 		/* we hit the line that contains our decomposition target */
-		if (strlen(field[5]) > 0) {
-			p = field[5];
-			if (*p == '<') {
-				/*
-				 * the decomposition contains some metadata
-				 * <...> we skip
-				 */
-				for (; *p != '\0'; p++) {
-					if (*p == '>') {
-						p++;
-						while (*p == ' ') {
-							p++;
-						}
-						break;
-					}
-				}
-			}
-			hextocp(p, strlen(p), &(decomp->decomposition));
+		if (strlen(field[5]) > 0 && field[5][0] != '<') {
+			/*
+			 * only canonical decompositions matter here, those
+			 * with a <tag> are compatibility decompositions
+			 */
+			hextocp(field[5], strlen(field[5]),
+			        &(decomp->decomposition));
 		} else {
 			decomp->decomposition = decomp->cp;
 		}
-- 
2.43.0


From 8ddf69c3f7b7cf336eb680479b2786fade00f390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:10 +0000
Subject: [PATCH 07/17] fix: gen/line: LB1 class of SA marks, Line_Break of
 listed unassigned codepoints

---
 gen/line.c | 24 +++++++++++++++++-------
 gen/util.c |  1 -
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/gen/line.c b/gen/line.c
index 2e08acc..764a9f7 100644
--- a/gen/line.c
+++ b/gen/line.c
@@ -273,8 +273,8 @@ static const struct property_spec line_break_property[] = {
 	},
 	{
 		.enumname = "TMP_SA_WITH_MN_OR_MC",
-		.file = FILE_LINE,
-		.ucdname = "SA",
+		.file = NULL,
+		.ucdname = NULL,
 	},
 	{
 		.enumname = "TMP_SG",
@@ -340,10 +340,10 @@ handle_conflict(uint_least32_t cp, uint_least8_t prop1, uint_least8_t prop2)
 	           (!strcmp(line_break_property[prop2].enumname, "TMP_MN") ||
 	            !strcmp(line_break_property[prop2].enumname, "TMP_MC"))) {
 		if (!strcmp(line_break_property[prop1].enumname,
-		            "SA_WITHOUT_MN_OR_MC") ||
+		            "TMP_SA_WITHOUT_MN_OR_MC") ||
 		    !strcmp(line_break_property[prop2].enumname,
-		            "SA_WITHOUT_MN_OR_MC")) {
-			target = "SA_WITH_MN_OR_MC";
+		            "TMP_SA_WITHOUT_MN_OR_MC")) {
+			target = "TMP_SA_WITH_MN_OR_MC";
 		} else {
 			/* ignore Mn and Mc for the rest */
 			if ((!strcmp(line_break_property[prop1].enumname,
@@ -362,6 +362,13 @@ handle_conflict(uint_least32_t cp, uint_least8_t prop1, uint_least8_t prop2)
 		    !strcmp(line_break_property[prop2].enumname,
 		            "TMP_EXTENDED_PICTOGRAPHIC")) {
 			target = "BOTH_CN_EXTPICT";
+		} else if (!strcmp(line_break_property[prop1].enumname, "ID") ||
+		           !strcmp(line_break_property[prop2].enumname, "ID")) {
+			/*
+			 * keep Cn, as this might be BOTH_CN_EXTPICT; the
+			 * residue is mapped to ID in the postprocessing
+			 */
+			target = "TMP_CN";
 		} else {
 			/* ignore Cn for all the other properties */
 			if (!strcmp(line_break_property[prop1].enumname,
@@ -445,9 +452,12 @@ post_process(struct properties *prop)
 		                   "TMP_CJ")) {
 			/* map CJ to NS */
 			target = "NS";
+		} else if (!strcmp(line_break_property[prop[i].property]
+		                           .enumname,
+		                   "TMP_CN")) {
+			/* map explicitly listed unassigned codepoints to ID */
+			target = "ID";
 		} else if (
-			!strcmp(line_break_property[prop[i].property].enumname,
-		                "TMP_CN") ||
 			!strcmp(line_break_property[prop[i].property].enumname,
 		                "TMP_EXTENDED_PICTOGRAPHIC") ||
 			!strcmp(line_break_property[prop[i].property].enumname,
diff --git a/gen/util.c b/gen/util.c
index 6f21906..fcf4d30 100644
--- a/gen/util.c
+++ b/gen/util.c
@@ -329,7 +329,6 @@ properties_callback(const char *file, char **field, size_t nfields,
 					exit(1);
 				}
 			}
-			break;
 		}
 	}
 
-- 
2.43.0


From 4b9dc75a946d01583ccfc5f9d17d2abd27072573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:10 +0000
Subject: [PATCH 08/17] fix: reader: do not take a soft limit for the end of
 the UTF-8 data

---
 src/util.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/util.c b/src/util.c
index 4d9a8a4..da15b6d 100644
--- a/src/util.c
+++ b/src/util.c
@@ -147,9 +147,12 @@ herodotus_read_codepoint(HERODOTUS_READER *r, bool advance, uint_least32_t *cp)
 		*cp = ((const uint_least32_t *)(r->src))[r->off];
 		ret = 1;
 	} else { /* r->type == HERODOTUS_TYPE_UTF8 */
-		ret = grapheme_decode_utf8(
-			(const char *)r->src + r->off,
-			MIN(r->srclen, r->soft_limit[0]) - r->off, cp);
+		/*
+		 * the soft limit is no end of the data, so it must not
+		 * make a sequence that is complete look truncated
+		 */
+		ret = grapheme_decode_utf8((const char *)r->src + r->off,
+		                           r->srclen - r->off, cp);
 	}
 
 	if (unlikely(r->srclen == SIZE_MAX && *cp == 0)) {
-- 
2.43.0


From 14fca21e980aca66fb4f29460355f8219641ace2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:11 +0000
Subject: [PATCH 09/17] fix: case: a cased character after case-ignorable ones
 begins a new Final_Sigma context

---
 src/case.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/case.c b/src/case.c
index 6fac8ec..72eb7a2 100644
--- a/src/case.c
+++ b/src/case.c
@@ -110,11 +110,9 @@ to_case(HERODOTUS_READER *r, HERODOTUS_WRITER *w,
 
 			/* update state */
 			prop = get_case_property(cp);
-			if ((final_sigma_level == 0 ||
-			     final_sigma_level == 1) &&
-			    (prop == CASE_PROP_CASED ||
-			     prop == CASE_PROP_BOTH_CASED_CASE_IGNORABLE)) {
-				/* sequence has begun */
+			if (prop == CASE_PROP_CASED ||
+			    prop == CASE_PROP_BOTH_CASED_CASE_IGNORABLE) {
+				/* sequence has begun (anew) */
 				final_sigma_level = 1;
 			} else if (
 				(final_sigma_level == 1 ||
-- 
2.43.0


From 2f81f3a8abfbf9dcee305dca26fb78b66e7570a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:58 +0000
Subject: [PATCH 10/17] fix: character: without a state, behave as with a reset
 state for regional indicators (GB12/13)

---
 src/character.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/character.c b/src/character.c
index aedcf9e..da51692 100644
--- a/src/character.c
+++ b/src/character.c
@@ -200,12 +200,17 @@ grapheme_is_character_break(uint_least32_t cp0, uint_least32_t cp1,
 		 * http://unicode.org/reports/tr29/#Grapheme_Cluster_Boundary_Rules
 		 *
 		 * Given we have no state, this behaves as if the state-booleans
-		 * were all set to false
+		 * had all been set to false before this call, i.e. they only
+		 * reflect the two given codepoints
 		 */
 		notbreak = (dont_break[cp0_prop] & (UINT16_C(1) << cp1_prop)) ||
 		           (dont_break_gb11[cp0_prop] &
 		            (UINT16_C(1) << cp1_prop)) ||
-		           (dont_break_gb12_13[cp0_prop] &
+		           (dont_break_gb12_13
+		                    [cp0_prop +
+		                     NUM_CHAR_BREAK_PROPS *
+		                             ((flag_update_gb12_13[cp0_prop] &
+		                               (UINT16_C(1) << cp1_prop)) != 0)] &
 		            (UINT16_C(1) << cp1_prop));
 	}
 
-- 
2.43.0


From f8a68220ae026015d7b60573ef4e298420cf4580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:02 +0000
Subject: [PATCH 11/17] fix: case: a codepoint that is cased and case-ignorable
 behind a sigma is a cased one

---
 src/case.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/case.c b/src/case.c
index 72eb7a2..a4310f7 100644
--- a/src/case.c
+++ b/src/case.c
@@ -68,9 +68,10 @@ to_case(HERODOTUS_READER *r, HERODOTUS_WRITER *w,
 			     final_sigma_level == 2)) {
 				/*
 				 * check succeeding characters by first skipping
-				 * all case-ignorable characters and then
-				 * checking if the succeeding character is
-				 * cased, invalidating the after-condition
+				 * all case-ignorable characters that are not
+				 * cased and then checking if the succeeding
+				 * character is cased, invalidating the
+				 * after-condition
 				 */
 				herodotus_reader_copy(r, &tmp);
 				for (prop = NUM_CASE_PROPS;
@@ -79,14 +80,13 @@ to_case(HERODOTUS_READER *r, HERODOTUS_WRITER *w,
 				     HERODOTUS_STATUS_SUCCESS;) {
 					prop = get_case_property(tmp_cp);
 
-					if (prop != CASE_PROP_CASE_IGNORABLE &&
-					    prop != CASE_PROP_BOTH_CASED_CASE_IGNORABLE) {
+					if (prop != CASE_PROP_CASE_IGNORABLE) {
 						break;
 					}
 				}
 
 				/*
-				 * Now prop is something other than
+				 * Now prop is something other than just
 				 * case-ignorable or the source-string ended. If
 				 * it is something other than cased, we know
 				 * that the after-condition holds
-- 
2.43.0


From dc2836bf30d78a077ba820070e20968bc06fa9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:09 +0000
Subject: [PATCH 12/17] fix: bidirectional: do not write levels behind the end
 of the level array

---
 src/bidirectional.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 4e81df1..d71569a 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -1496,7 +1496,7 @@ get_line_embedding_levels(const uint_least32_t *linedata, size_t linelen,
 
 		/* write level into level array if we still have space */
 		if (level != -1 || skipignored == false) {
-			if (levlen <= levsize) {
+			if (levlen < levsize) {
 				set_level(lev, levlen, level);
 			}
 			levlen++;
@@ -1527,7 +1527,7 @@ get_line_embedding_levels(const uint_least32_t *linedata, size_t linelen,
 		 * we hit the end of the line but were in a run;
 		 * reset the line levels to the paragraph level
 		 */
-		for (i = runsince; i < MIN(linelen, levlen); i++) {
+		for (i = runsince; i < MIN(levlen, levsize); i++) {
 			if (get_level(lev, i) != -1) {
 				set_level(lev, i, runlevel);
 			}
-- 
2.43.0


From 37ee5b3dd1a455d541b5c2571e65da427174cd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:09 +0000
Subject: [PATCH 13/17] fix: bidirectional: do not process states behind the
 end of the buffer

---
 src/bidirectional.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index d71569a..865050d 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -1437,7 +1437,7 @@ preprocess(HERODOTUS_READER *r, enum grapheme_bidirectional_direction override,
 			          &(buf[bufoff]));
 		}
 	}
-	bufsize = herodotus_reader_number_read(r);
+	bufsize = MIN(herodotus_reader_number_read(r), buflen);
 
 	for (bufoff = 0; bufoff < bufsize; bufoff++) {
 		if (get_state(STATE_PROP, buf[bufoff]) != BIDI_PROP_B &&
-- 
2.43.0


From ae29377e3d7d85ae1cd58a65024ea557f39bac9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:09 +0000
Subject: [PATCH 14/17] fix: bidirectional: reorder a line which fills the
 output exactly

---
 src/bidirectional.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 865050d..7ba1ca5 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -1609,7 +1609,7 @@ grapheme_bidirectional_reorder_line(const uint_least32_t *line,
 			outputlen++;
 		}
 	}
-	if (outputlen >= outputsize) {
+	if (outputlen > outputsize) {
 		/* clear output buffer */
 		for (i = 0; i < outputsize; i++) {
 			output[i] = GRAPHEME_INVALID_CODEPOINT;
-- 
2.43.0


From f68d5c9910ff2c3ccd2cb34c0bde43370595ae25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:09 +0000
Subject: [PATCH 15/17] fix: bidirectional: take the paragraph level only from
 the paragraph itself (P1-P3)

---
 src/bidirectional.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 7ba1ca5..49d7795 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -974,6 +974,11 @@ get_paragraph_level(enum grapheme_bidirectional_direction override,
 	                        HERODOTUS_STATUS_SUCCESS;) {
 		prop = get_bidi_property(cp);
 
+		if (prop == BIDI_PROP_B) {
+			/* the paragraph ends here (P1) */
+			break;
+		}
+
 		/* BD8/BD9 */
 		if ((prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
 		     prop == BIDI_PROP_FSI) &&
-- 
2.43.0


From 89ca885422132ce6fa8aaffaf0e10e497979887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:09 +0000
Subject: [PATCH 16/17] fix: bidirectional: follow isolates of any depth,
 overflowing and overridden ones too (BD9, BD13)

---
 src/bidirectional.c | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 49d7795..5b92a69 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -225,8 +225,8 @@ static int
 ir_advance(struct isolate_runner *ir)
 {
 	enum bidi_property prop;
-	int_least8_t level, isolate_level, last_isolate_level;
-	size_t i;
+	int_least8_t level, last_isolate_level;
+	size_t i, isolate_level;
 
 	if (ir->next.off == SIZE_MAX) {
 		/* the sequence is over */
@@ -247,7 +247,9 @@ ir_advance(struct isolate_runner *ir)
 	last_isolate_level = -1;
 	for (i = ir->cur.off, isolate_level = 0; i < ir->buflen; i++) {
 		level = (int_least8_t)get_state(STATE_LEVEL, ir->buf[i]);
-		prop = (uint_least8_t)get_state(STATE_PROP, ir->buf[i]);
+		/* an override does not change what isolates (BD9) */
+		prop = (uint_least8_t)get_state(STATE_PRESERVED_PROP,
+		                                ir->buf[i]);
 
 		if (level == -1) {
 			/* this is one of the ignored characters, skip */
@@ -262,12 +264,12 @@ ir_advance(struct isolate_runner *ir)
 			/*
 			 * we encountered an isolate initiator, increment
 			 * counter, but go into processing when we
-			 * were not isolated before
+			 * were not isolated before or when it did not
+			 * raise the level because of an overflow
 			 */
-			if (isolate_level < MAX_DEPTH) {
-				isolate_level++;
-			}
-			if (isolate_level != 1) {
+			isolate_level++;
+			if (isolate_level != 1 &&
+			    level != ir->isolating_run_level) {
 				continue;
 			}
 		} else if (prop == BIDI_PROP_PDI && isolate_level > 0) {
@@ -278,10 +280,12 @@ ir_advance(struct isolate_runner *ir)
 			 * to zero, it is itself part of the isolating
 			 * run sequence; otherwise we simply continue.
 			 */
-			if (isolate_level > 0) {
+			if (isolate_level > 0 &&
+			    level != ir->isolating_run_level) {
 				continue;
 			}
-		} else if (isolate_level > 0) {
+		} else if (isolate_level > 0 &&
+		           level != ir->isolating_run_level) {
 			/* we are in an isolating sequence */
 			continue;
 		}
@@ -898,8 +902,7 @@ static uint_least8_t
 get_isolated_paragraph_level(const uint_least32_t *state, size_t statelen)
 {
 	enum bidi_property prop;
-	int_least8_t isolate_level;
-	size_t stateoff;
+	size_t stateoff, isolate_level;
 
 	/* determine paragraph level (rules P1-P3) and terminate on PDI */
 	for (stateoff = 0, isolate_level = 0; stateoff < statelen; stateoff++) {
@@ -914,9 +917,8 @@ get_isolated_paragraph_level(const uint_least32_t *state, size_t statelen)
 		}
 
 		/* BD8/BD9 */
-		if ((prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
-		     prop == BIDI_PROP_FSI) &&
-		    isolate_level < MAX_DEPTH) {
+		if (prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
+		    prop == BIDI_PROP_FSI) {
 			/* we hit an isolate initiator, increment counter */
 			isolate_level++;
 		} else if (prop == BIDI_PROP_PDI && isolate_level > 0) {
@@ -956,7 +958,7 @@ get_paragraph_level(enum grapheme_bidirectional_direction override,
 {
 	HERODOTUS_READER tmp;
 	enum bidi_property prop;
-	int_least8_t isolate_level;
+	size_t isolate_level;
 	uint_least32_t cp;
 
 	/* check overrides first according to rule HL1 */
@@ -980,9 +982,8 @@ get_paragraph_level(enum grapheme_bidirectional_direction override,
 		}
 
 		/* BD8/BD9 */
-		if ((prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
-		     prop == BIDI_PROP_FSI) &&
-		    isolate_level < MAX_DEPTH) {
+		if (prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
+		    prop == BIDI_PROP_FSI) {
 			/* we hit an isolate initiator, increment counter */
 			isolate_level++;
 		} else if (prop == BIDI_PROP_PDI && isolate_level > 0) {
-- 
2.43.0


From 09eb391aea91ce7c8cee99931f78557d678d586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:09 +0000
Subject: [PATCH 17/17] fix: bidirectional: determine bracket pairs as BD16
 does when there are many of them

---
 src/bidirectional.c | 234 ++++++++++++--------------------------------
 1 file changed, 63 insertions(+), 171 deletions(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 5b92a69..777d635 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -15,6 +15,7 @@ enum state_type {
 	STATE_LEVEL,           /* in 0..MAX_DEPTH+1=126, embedding level */
 	STATE_PARAGRAPH_LEVEL, /* in 0..1, paragraph embedding level */
 	STATE_VISITED,         /* in 0..1, visited within isolating run */
+	STATE_PAIRED,          /* in 0..1, bracket that is part of a pair */
 };
 
 static struct {
@@ -52,6 +53,11 @@ static struct {
 		.mask_shift   = 26,
 		.value_offset = 0,
 	},
+	[STATE_PAIRED] = {
+		.filter_mask  = 0x8000000, /* 00001000 00000000 00000000 00000000 */
+		.mask_shift   = 27,
+		.value_offset = 0,
+	},
 };
 
 static inline int_least16_t
@@ -490,197 +496,82 @@ preprocess_bracket_pairs(uint_least32_t *buf, size_t buflen, size_t off,
 	 * by 63, the algorithm, as is, requires dynamic memory
 	 * management.
 	 *
-	 * A naive approach (used by Fribidi) would be to screw the
-	 * stack-approach and simply directly determine the
-	 * corresponding closing bracket offset for a given opening
-	 * bracket, leading to O(n²) time complexity in the worst case
-	 * with a lot of brackets. While many brackets are not common,
-	 * it is still possible to find a middle ground where you obtain
-	 * strongly linear time complexity in most common cases:
-	 *
-	 * Instead of a stack, we use a FIFO data structure which is
-	 * filled with bracket openings in the order of appearance (thus
-	 * yielding an implicit sorting!) at the top. If the
-	 * corresponding closing bracket is encountered, it is added to
-	 * the respective entry, making it ready to "move out" at the
-	 * bottom (i.e. passed to the bracket processing). Due to the
-	 * nature of the specified pair detection algorithm, which only
-	 * cares about the bracket type and nothing else (bidi class,
-	 * level, etc.), we can mix processing and bracket detection.
-	 *
-	 * Obviously, if you, for instance, have one big bracket pair at
-	 * the bottom that has not been closed yet, it will block the
-	 * bracket processing and the FIFO might hit its capacity limit.
-	 * At this point, the blockage is manually resolved using the
-	 * naive quadratic approach.
-	 *
-	 * To remain within the specified standard behaviour, which
-	 * mandates that processing of brackets should stop when the
-	 * bracketing-depth is at 63, we simply check in an "overflow"
-	 * scenario if all 63 elements in the LIFO are unfinished, which
-	 * corresponds with such a bracketing depth.
+	 * Instead of a list, we mark the brackets of each pair in the
+	 * state. As pairs never cross each other, a pair can be recovered
+	 * from the marks by counting openings and closings, and going
+	 * through the marked openings yields the pairs in sorted order.
 	 */
-	enum bidi_property prop;
-
 	struct {
-		bool complete;
+		size_t off;
 		size_t bracket_class;
-		struct isolate_runner start;
-		struct isolate_runner end;
-	} fifo[63];
-	const struct bracket *bracket_prop, *tmp_bracket_prop;
-	struct isolate_runner ir, tmp_ir;
-	size_t fifo_len = 0, i, blevel, j, k;
+	} stack[63];
+	const struct bracket *bracket_prop;
+	struct isolate_runner ir, end;
+	size_t stack_len, depth, i;
 
+	/* determine the bracket pairs (BD16) */
+	stack_len = 0;
 	ir_init(buf, buflen, off, paragraph_level, false, &ir);
 	while (!ir_advance(&ir)) {
-		prop = ir_get_current_prop(&ir);
+		if (ir_get_current_prop(&ir) != BIDI_PROP_ON) {
+			continue;
+		}
 		bracket_prop = ir_get_current_bracket_prop(&ir);
-		if (prop == BIDI_PROP_ON &&
-		    bracket_prop->type == BIDI_BRACKET_OPEN) {
-			if (fifo_len == LEN(fifo)) {
-				/*
-				 * The FIFO is full, check first if it's
-				 * completely blocked (i.e. no finished
-				 * bracket pairs, triggering the standard
-				 * that mandates to abort in such a case
-				 */
-				for (i = 0; i < fifo_len; i++) {
-					if (fifo[i].complete) {
-						break;
-					}
-				}
-				if (i == fifo_len) {
-					/* abort processing */
-					return;
-				}
 
+		if (bracket_prop->type == BIDI_BRACKET_OPEN) {
+			if (stack_len == LEN(stack)) {
 				/*
-				 * by construction, the bottom entry
-				 * in the FIFO is guaranteed to be
-				 * unfinished (given we "consume" all
-				 * finished bottom entries after each
-				 * iteration).
-				 *
-				 * iterate, starting after the opening
-				 * bracket, and find the corresponding
-				 * closing bracket.
-				 *
-				 * if we find none, just drop the FIFO
-				 * entry silently
+				 * the stack is full, the standard mandates
+				 * to stop here
 				 */
-				for (tmp_ir = fifo[0].start, blevel = 0;
-				     !ir_advance(&tmp_ir);) {
-					tmp_bracket_prop =
-						ir_get_current_bracket_prop(
-							&tmp_ir);
-
-					if (tmp_bracket_prop->type ==
-					            BIDI_BRACKET_OPEN &&
-					    tmp_bracket_prop->class ==
-					            bracket_prop->class) {
-						/* we encountered another
-						 * opening bracket of the
-						 * same class */
-						blevel++;
-
-					} else if (tmp_bracket_prop->type ==
-					                   BIDI_BRACKET_CLOSE &&
-					           tmp_bracket_prop->class ==
-					                   bracket_prop
-					                           ->class) {
-						/* we encountered a closing
-						 * bracket of the same class
-						 */
-						if (blevel == 0) {
-							/* this is the
-							 * corresponding
-							 * closing bracket
-							 */
-							fifo[0].complete = true;
-							fifo[0].end = ir;
-						} else {
-							blevel--;
-						}
-					}
-				}
-				if (fifo[0].complete) {
-					/* we found the matching bracket */
-					preprocess_bracket_pair(
-						&(fifo[i].start),
-						&(fifo[i].end));
-				}
-
-				/* shift FIFO one to the left */
-				for (i = 1; i < fifo_len; i++) {
-					fifo[i - 1] = fifo[i];
-				}
-				fifo_len--;
+				break;
 			}
-
-			/* add element to the FIFO */
-			fifo_len++;
-			fifo[fifo_len - 1].complete = false;
-			fifo[fifo_len - 1].bracket_class = bracket_prop->class;
-			fifo[fifo_len - 1].start = ir;
-		} else if (prop == BIDI_PROP_ON &&
-		           bracket_prop->type == BIDI_BRACKET_CLOSE) {
+			stack[stack_len].off = ir.cur.off;
+			stack[stack_len].bracket_class = bracket_prop->class;
+			stack_len++;
+		} else if (bracket_prop->type == BIDI_BRACKET_CLOSE) {
 			/*
-			 * go backwards in the FIFO, skip finished entries
-			 * and simply ignore (do nothing) the closing
-			 * bracket if we do not match anything
+			 * find the latest opening that matches, dropping
+			 * those above it, and simply ignore (do nothing) the
+			 * closing bracket if we do not match anything
 			 */
-			for (i = fifo_len; i > 0; i--) {
-				if (bracket_prop->class ==
-				            fifo[i - 1].bracket_class &&
-				    !fifo[i - 1].complete) {
-					/* we have found a pair */
-					fifo[i - 1].complete = true;
-					fifo[i - 1].end = ir;
-
-					/* remove all uncompleted FIFO elements
-					 * above i - 1 */
-					for (j = i; j < fifo_len;) {
-						if (fifo[j].complete) {
-							j++;
-							continue;
-						}
-
-						/* shift FIFO one to the left */
-						for (k = j + 1; k < fifo_len;
-						     k++) {
-							fifo[k - 1] = fifo[k];
-						}
-						fifo_len--;
-					}
+			for (i = stack_len; i > 0; i--) {
+				if (stack[i - 1].bracket_class ==
+				    bracket_prop->class) {
+					set_state(STATE_PAIRED, 1,
+					          &(buf[stack[i - 1].off]));
+					set_state(STATE_PAIRED, 1,
+					          &(buf[ir.cur.off]));
+					stack_len = i - 1;
 					break;
 				}
 			}
 		}
+	}
 
-		/* process all ready bracket pairs from the FIFO bottom */
-		while (fifo_len > 0 && fifo[0].complete) {
-			preprocess_bracket_pair(&(fifo[0].start),
-			                        &(fifo[0].end));
-
-			/* shift FIFO one to the left */
-			for (j = 0; j + 1 < fifo_len; j++) {
-				fifo[j] = fifo[j + 1];
-			}
-			fifo_len--;
+	/* process the bracket pairs in order of their openings */
+	ir_init(buf, buflen, off, paragraph_level, false, &ir);
+	while (!ir_advance(&ir)) {
+		if (!get_state(STATE_PAIRED, buf[ir.cur.off]) ||
+		    ir_get_current_bracket_prop(&ir)->type !=
+		            BIDI_BRACKET_OPEN) {
+			continue;
 		}
-	}
 
-	/*
-	 * afterwards, we still might have unfinished bracket pairs
-	 * that will remain as such, but the subsequent finished pairs
-	 * also need to be taken into account, so we go through the
-	 * FIFO once more and process all finished pairs
-	 */
-	for (i = 0; i < fifo_len; i++) {
-		if (fifo[i].complete) {
-			preprocess_bracket_pair(&(fifo[i].start),
-			                        &(fifo[i].end));
+		/* find the corresponding closing bracket */
+		for (end = ir, depth = 0; !ir_advance(&end);) {
+			if (!get_state(STATE_PAIRED, buf[end.cur.off])) {
+				continue;
+			}
+			if (ir_get_current_bracket_prop(&end)->type ==
+			    BIDI_BRACKET_OPEN) {
+				depth++;
+			} else if (depth == 0) {
+				preprocess_bracket_pair(&ir, &end);
+				break;
+			} else {
+				depth--;
+			}
 		}
 	}
 }
@@ -1438,6 +1329,7 @@ preprocess(HERODOTUS_READER *r, enum grapheme_bidirectional_direction override,
 			set_state(STATE_LEVEL, 0, &(buf[bufoff]));
 			set_state(STATE_PARAGRAPH_LEVEL, 0, &(buf[bufoff]));
 			set_state(STATE_VISITED, 0, &(buf[bufoff]));
+			set_state(STATE_PAIRED, 0, &(buf[bufoff]));
 			set_state(STATE_PRESERVED_PROP,
 			          (uint_least8_t)get_bidi_property(cp),
 			          &(buf[bufoff]));
-- 
2.43.0

