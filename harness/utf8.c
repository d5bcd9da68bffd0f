/* contracts of grapheme_decode_utf8() and grapheme_encode_utf8(); the real
 * functions, every buffer, every length, every codepoint */
#include "src/utf8.c"
#include "utf8ref.h"
#define CHECK(c, d) __CPROVER_assert(c, d)
#define REACH(d) __CPROVER_assert(0, "REACH " d)
void *malloc(size_t);

static unsigned char *
buffer(size_t n)
{
	unsigned char *b;
	__CPROVER_assume(n <= (size_t)1 << 48);
	b = malloc(n);
	__CPROVER_assume(b != NULL);
	return b;
}

void
harness_decode(void)
{
	size_t n, l, k;
	uint_least32_t cp, cp0;
	unsigned char *b = buffer(n), old;
	struct u8 r = ref_decode(b, n);
	_Bool null;
	__CPROVER_assume(n == 0 || k < n);
	if (n) old = b[k];
	l = grapheme_decode_utf8((const char *)b, n, null ? NULL : &cp);
	CHECK(l == r.len, "grapheme_decode_utf8 ensures: the length of the sequence");
	CHECK(null || cp == r.cp, "grapheme_decode_utf8 ensures: the codepoint, or U+FFFD for every ill-formed sequence");
	CHECK(n == 0 || b[k] == old, "grapheme_decode_utf8 ensures: the text is not modified");
	CHECK(n == 0 || l >= 1, "grapheme_decode_utf8 ensures: progress");
	if (l > n) REACH("truncated");
	if (l <= n && !null && cp > 0xFFFF) REACH("long");
	l = grapheme_decode_utf8(NULL, n, null ? NULL : &cp);
	CHECK(l == 0 && (null || cp == 0xFFFD), "grapheme_decode_utf8 ensures: NULL text");
	REACH("return");
}

/* a terminated text: nothing is read behind the terminator */
void
harness_decode_nul(void)
{
	size_t n, l, any;
	uint_least32_t cp;
	unsigned char *b;
	struct u8 r;
	__CPROVER_assume(n <= (size_t)1 << 48);
	__CPROVER_assume(any > n); /* no length is known, e.g. SIZE_MAX */
	b = buffer(n + 1);
	b[n] = 0;
	r = ref_decode(b, any);
	l = grapheme_decode_utf8((const char *)b, any, &cp);
	CHECK(l == r.len && cp == r.cp, "grapheme_decode_utf8 ensures: result in a terminated text");
	CHECK(l <= n + 1 && (l == n + 1) <= (n == 0), "grapheme_decode_utf8 ensures: the sequence does not contain the terminator");
	REACH("return");
}

void
harness_encode(void)
{
	uint_least32_t cp;
	size_t n, l, k;
	unsigned char *b = buffer(n), o[4], old;
	_Bool null;
	size_t w = ref_encode(cp, o);
	__CPROVER_assume(n == 0 || k < n);
	if (n) old = b[k];
	l = grapheme_encode_utf8(cp, null ? NULL : (char *)b, n);
	CHECK(l == w, "grapheme_encode_utf8 ensures: the number of bytes");
	if (n)
		CHECK(b[k] == (!null && w <= n && k < w ? o[k] : old), "grapheme_encode_utf8 ensures: the encoding is written if it fits, and nothing else");
	if (w <= n && !null) REACH("written");
	if (w > n && n > 0) REACH("does not fit");
	REACH("return");
}

/* round trips of the two real functions */
void
harness_roundtrip(void)
{
	uint_least32_t cp, back;
	char b[4], e[4];
	size_t n, l, m;
	n = grapheme_encode_utf8(cp, b, 4);
	CHECK(n >= 1 && n <= 4, "length of an encoding");
	l = grapheme_decode_utf8(b, n, &back);
	if (cp <= 0x10FFFF && !(cp >= 0xD800 && cp <= 0xDFFF)) {
		CHECK(back == cp && l == n, "decode(encode(cp)) == cp for every scalar value");
		REACH("scalar");
	} else {
		CHECK(back == 0xFFFD && l == n, "what cannot be encoded is U+FFFD");
	}
	{
		char x[4];
		uint_least32_t c;
		size_t have;
		__CPROVER_assume(have <= 4);
		l = grapheme_decode_utf8(x, have, &c);
		if (l <= have && have && c != 0xFFFD) {
			m = grapheme_encode_utf8(c, e, 4);
			CHECK(m == l && e[0] == x[0] && (m < 2 || e[1] == x[1]) && (m < 3 || e[2] == x[2]) && (m < 4 || e[3] == x[3]), "encode(decode(s)) == s for every well-formed sequence");
			REACH("well-formed");
		}
	}
}
