/* conversion and detection of a NULL text (the loops are not entered) */
#include "src/case.c"
#include "src/util.c"
#include "src/utf8.c"
#define CHECK(c, d) __CPROVER_assert(c, d)
#define REACH(d) __CPROVER_assert(0, "REACH " d)
void *malloc(size_t);
/* contract: word-*-null */
size_t grapheme_next_word_break(const uint_least32_t *s, size_t n) { (void)n; CHECK(s == NULL, "NULL text"); return 0; }
size_t grapheme_next_word_break_utf8(const char *s, size_t n) { (void)n; CHECK(s == NULL, "NULL text"); return 0; }

#define TO(name, type) { \
	size_t n, m, r; \
	type *d; \
	_Bool none; \
	__CPROVER_assume(m <= 16); \
	d = none ? NULL : malloc(m * sizeof(type)); \
	__CPROVER_assume(none || d != NULL); \
	r = grapheme_to_##name(NULL, n, d, m); \
	CHECK(r == 0, #name ": a NULL text is empty"); \
	CHECK(none || m == 0 || d[0] == 0, #name ": the empty result is terminated"); \
	REACH(#name); }
#define IS(name) { \
	size_t n, len, *p; \
	_Bool none; \
	p = none ? NULL : &len; \
	CHECK(grapheme_is_##name(NULL, n, p), #name ": a NULL text is empty"); \
	CHECK(none || len == 0, #name ": length of the empty text"); \
	REACH("is " #name); }
void
harness_to(void)
{
	TO(uppercase, uint_least32_t) TO(lowercase, uint_least32_t) TO(titlecase, uint_least32_t)
	TO(uppercase_utf8, char) TO(lowercase_utf8, char) TO(titlecase_utf8, char)
}
void
harness_is(void)
{
	IS(uppercase) IS(lowercase) IS(titlecase) IS(uppercase_utf8) IS(lowercase_utf8) IS(titlecase_utf8)
}
