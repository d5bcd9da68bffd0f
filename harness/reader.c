/* the real herodotus_read_codepoint() against the contract that all other
 * proofs use, for every buffer and reader state; the decoder is represented by
 * its contract (harness/utf8.c) */
#include "src/util.c"
#include "utf8ref.h"
size_t
grapheme_decode_utf8(const char *s, size_t n, uint_least32_t *cp)
{
	struct u8 d = s ? ref_decode((const unsigned char *)s, n) : (struct u8){0, 0xFFFD};
	if (cp) *cp = d.cp;
	return d.len;
}
#include "reader_contract.h"
#define CHECK(c, d) __CPROVER_assert(c, d)
#define REACH(d) __CPROVER_assert(0, "REACH " d)
void *malloc(size_t);

static void
run(bool utf8)
{
	HERODOTUS_READER r, e, o;
	size_t len, units, base, a, clen, unit = utf8 ? 1 : 4;
	unsigned char *b;
	uint_least32_t cp, ecp, c;
	bool nul, advance, at_end;
	int kind = 0;
	enum herodotus_status s, es;

	__CPROVER_assume(len <= (size_t)1 << 40);
	units = nul ? len + 1 : len;
	b = malloc(units * unit);
	__CPROVER_assume(b != NULL);
	if (nul) {
		if (utf8) b[len] = 0; else ((uint_least32_t *)b)[len] = 0;
	}
	__CPROVER_assume(base <= len);
	r.type = utf8 ? HERODOTUS_TYPE_UTF8 : HERODOTUS_TYPE_CODEPOINT;
	r.src = b + base * unit;
	r.srclen = nul ? SIZE_MAX : len - base;
	r.terminated_by_null = r.terminated_by_null ? 1 : 0;
	__CPROVER_assume(r.off <= len - base);
	a = base + r.off;
	/* what there is at the position */
	at_end = false;
	if (!nul && a == len) {
		at_end = true;
	} else if (utf8) {
		struct u8 d = ref_decode(b + a, nul ? SIZE_MAX : len - a);
		c = d.cp;
		clen = d.len;
		if (!nul && a + clen > len) { at_end = true; kind = 2; }
	} else {
		c = ((const uint_least32_t *)b)[a];
		clen = 1;
	}
	if (nul && c == 0) { at_end = true; kind = 1; }
	/* the reader has only seen the terminator if it is there */
	__CPROVER_assume(!r.terminated_by_null || kind == 1);
	if (!at_end) CHECK(clen >= 1 && clen <= 4 && a + clen <= len, "the text model: lengths");
	o = e = r;
	s = herodotus_read_codepoint(&r, advance, &cp);
	es = VF_read_contract(&e, advance, &ecp, at_end, kind, c, clen);
	CHECK(s == es, "herodotus_read_codepoint ensures: status");
	if (s == HERODOTUS_STATUS_SUCCESS) CHECK(cp == ecp, "herodotus_read_codepoint ensures: codepoint");
	CHECK(r.off == e.off, "herodotus_read_codepoint ensures: position");
	CHECK(r.terminated_by_null == e.terminated_by_null, "herodotus_read_codepoint ensures: end of terminated text");
	CHECK(r.type == o.type && r.src == o.src && r.srclen == o.srclen, "herodotus_read_codepoint ensures: frame");
	for (int i = 0; i < 10; i++) CHECK(r.soft_limit[i] == o.soft_limit[i], "herodotus_read_codepoint ensures: frame, limits");
	if (s == HERODOTUS_STATUS_SUCCESS) REACH("success");
	if (s == HERODOTUS_STATUS_SOFT_LIMIT_REACHED) REACH("limit");
	if (kind == 1) REACH("terminator");
	if (kind == 2 || !utf8) REACH("truncated");
	REACH("return");
}
void harness_reader_cps(void) { run(false); }
void harness_reader_utf8(void) { run(true); }
void
harness_reader_null(void)
{
	HERODOTUS_READER r;
	uint_least32_t cp;
	size_t off;
	__CPROVER_assume(off == 0);
	r.src = NULL;
	r.off = 0;
	CHECK(herodotus_read_codepoint(&r, true, &cp) == HERODOTUS_STATUS_END_OF_BUFFER && r.off == 0, "herodotus_read_codepoint ensures: NULL text is empty");
	REACH("return");
}

/* length of the next codepoint; `lim` is at a codepoint boundary behind it */
static void
run_cpbreak(bool utf8)
{
	HERODOTUS_READER r, o;
	size_t len, base, a, clen, unit = utf8 ? 1 : 4, n;
	unsigned char *b;
	uint_least32_t c;
	bool nul;

	__CPROVER_assume(len <= (size_t)1 << 40);
	b = malloc((nul ? len + 1 : len) * unit);
	__CPROVER_assume(b != NULL);
	if (nul) {
		if (utf8) b[len] = 0; else ((uint_least32_t *)b)[len] = 0;
	}
	__CPROVER_assume(base <= len);
	r.type = utf8 ? HERODOTUS_TYPE_UTF8 : HERODOTUS_TYPE_CODEPOINT;
	r.src = b + base * unit;
	r.srclen = nul ? SIZE_MAX : len - base;
	__CPROVER_assume(r.off <= len - base);
	__CPROVER_assume(r.soft_limit[0] == SIZE_MAX || (r.off <= r.soft_limit[0] && r.soft_limit[0] <= len - base));
	a = base + r.off;
	o = r;
	n = herodotus_reader_next_codepoint_break(&r);
	CHECK(r.off == o.off && r.type == o.type && r.src == o.src && r.srclen == o.srclen && r.terminated_by_null == o.terminated_by_null, "herodotus_reader_next_codepoint_break ensures: frame");
	for (int i = 0; i < 10; i++) CHECK(r.soft_limit[i] == o.soft_limit[i], "herodotus_reader_next_codepoint_break ensures: frame, limits");
	if (a < len && r.off < r.soft_limit[0]) {
		if (utf8) {
			struct u8 d = ref_decode(b + a, nul ? SIZE_MAX : len - a);
			c = d.cp;
			clen = d.len;
		} else {
			c = ((const uint_least32_t *)b)[a];
			clen = 1;
		}
		/* not the end of the text */
		if (a + clen <= len && c != 0xFFFD && !(nul && c == 0) && (r.soft_limit[0] == SIZE_MAX || r.off + clen <= r.soft_limit[0])) {
			CHECK(n == clen, "herodotus_reader_next_codepoint_break ensures: length of the codepoint");
			REACH("codepoint");
		}
	}
	REACH("return");
}
void harness_cpbreak_cps(void) { run_cpbreak(false); }
void harness_cpbreak_utf8(void) { run_cpbreak(true); }
