/* the real writer functions against the contract, for every buffer, position
 * and codepoint; the encoder is represented by its contract (harness/utf8.c) */
#include "src/util.c"
#include "utf8ref.h"
size_t
grapheme_encode_utf8(uint_least32_t cp, char *s, size_t n)
{
	unsigned char o[4];
	size_t l = ref_encode(cp, o);
	if (s != NULL && n >= l) {
		s[0] = o[0];
		if (l > 1) s[1] = o[1];
		if (l > 2) s[2] = o[2];
		if (l > 3) s[3] = o[3];
	}
	return l;
}
#include "writer_contract.h"
#define CHECK(c, d) __CPROVER_assert(c, d)
#define REACH(d) __CPROVER_assert(0, "REACH " d)
void *malloc(size_t);
#define MAXOFF ((size_t)1 << 44)

static HERODOTUS_WRITER w;
static unsigned char *buf;
static size_t unit;

static void
any_writer(bool utf8)
{
	HERODOTUS_WRITER x;
	bool null;
	unit = utf8 ? 1 : 4;
	__CPROVER_assume(x.destlen <= MAXOFF && x.off <= MAXOFF);
	buf = malloc(x.destlen * unit);
	__CPROVER_assume(buf != NULL);
	x.type = utf8 ? HERODOTUS_TYPE_UTF8 : HERODOTUS_TYPE_CODEPOINT;
	x.dest = null ? NULL : buf;
	__CPROVER_assume(VF_wr_ok(&x));
	w = x;
}

static uint_least32_t
unit_at(size_t j)
{
	return unit == 1 ? buf[j] : ((uint_least32_t *)buf)[j];
}

/* the units up to here stay as they are until the end */
static size_t
limit(void)
{
	size_t l = w.destlen - 1;
	return w.first_unwritable_offset < l ? w.first_unwritable_offset : l;
}

static void
run_write(bool utf8)
{
	HERODOTUS_WRITER o, e;
	uint_least32_t cp, v, before = 0;
	unsigned char enc[4];
	size_t j, n, l;
	any_writer(utf8);
	o = e = w;
	/* any unit j of the result: v */
	__CPROVER_assume(j < w.destlen);
	before = unit_at(j);
	l = limit();
	__CPROVER_assume(!(w.dest != NULL && j < w.off && j < l) || before == v);
	n = utf8 ? ref_encode(cp, enc) : 1;
	if (j >= w.off && j - w.off < n) v = utf8 ? enc[j - w.off] : cp;
	herodotus_write_codepoint(&w, cp);
	VF_write_contract(&e, cp);
	CHECK(w.off == e.off, "herodotus_write_codepoint ensures: position");
	CHECK(w.off == o.off + n, "herodotus_write_codepoint ensures: the length is counted whether it fits or not");
	CHECK(w.first_unwritable_offset == e.first_unwritable_offset, "herodotus_write_codepoint ensures: first codepoint that does not fit");
	CHECK(w.type == o.type && w.dest == o.dest && w.destlen == o.destlen, "herodotus_write_codepoint ensures: frame");
	CHECK(VF_wr_ok(&w), "herodotus_write_codepoint ensures: invariant");
	CHECK(!(w.dest != NULL && j < w.off && j < limit()) || unit_at(j) == v, "herodotus_write_codepoint ensures: the buffer holds the result as far as it fits");
	CHECK((w.dest != NULL && j >= o.off && j - o.off < n && VF_fits(&o, cp)) || unit_at(j) == before, "herodotus_write_codepoint ensures: frame, other units of the buffer");
	if (w.first_unwritable_offset != o.first_unwritable_offset) {
		CHECK(w.first_unwritable_offset == o.off && (w.dest == NULL || o.off + n >= w.destlen), "herodotus_write_codepoint ensures: gives up only at a whole codepoint that does not fit with the terminator");
		REACH("gives up");
	}
	if (!utf8) REACH("gives up");
	REACH("return");
}

static void
run_nul(bool utf8)
{
	HERODOTUS_WRITER o;
	uint_least32_t v, before;
	size_t j;
	any_writer(utf8);
	o = w;
	__CPROVER_assume(j < w.destlen);
	before = unit_at(j);
	herodotus_writer_nul_terminate(&w);
	CHECK(w.off == o.off && w.type == o.type && w.dest == o.dest && w.destlen == o.destlen && w.first_unwritable_offset == o.first_unwritable_offset, "herodotus_writer_nul_terminate ensures: frame");
	CHECK(w.dest == NULL || j != VF_term(&w) || unit_at(j) == 0, "herodotus_writer_nul_terminate ensures: NUL behind the last codepoint that fits");
	CHECK(w.dest == NULL || VF_term(&w) < w.destlen, "herodotus_writer_nul_terminate ensures: the terminator is within the buffer");
	CHECK((w.dest != NULL && j == VF_term(&w)) || unit_at(j) == before, "herodotus_writer_nul_terminate ensures: frame, other units of the buffer");
	CHECK(VF_term(&w) == (o.off < limit() ? o.off : limit()), "the terminator is where the kept part of the result ends");
	/* maximality */
	if (w.dest != NULL && !utf8) CHECK(VF_term(&w) == (w.off < w.destlen ? w.off : w.destlen - 1), "the longest prefix that fits is kept");
	if (w.dest != NULL && utf8 && w.first_unwritable_offset == SIZE_MAX) CHECK(VF_term(&w) == w.off, "the whole result is kept");
	REACH("return");
	if (w.off >= w.destlen) REACH("truncated");
}

static void
run_nul0(bool utf8)
{
	any_writer(utf8);
	__CPROVER_assume(w.destlen == 0);
	herodotus_writer_nul_terminate(&w);
	REACH("return");
}

static void
run_init(bool utf8)
{
	size_t n;
	char *d;
	enum herodotus_type t = utf8 ? HERODOTUS_TYPE_UTF8 : HERODOTUS_TYPE_CODEPOINT;
	herodotus_writer_init(&w, t, d, n);
	CHECK(w.type == t && w.dest == d && w.destlen == n && w.off == 0 && w.first_unwritable_offset == SIZE_MAX && VF_wr_ok(&w), "herodotus_writer_init ensures: nothing written yet");
	CHECK(herodotus_writer_number_written(&w) == 0, "herodotus_writer_number_written ensures: nothing written yet");
	w.off = n;
	CHECK(herodotus_writer_number_written(&w) == n, "herodotus_writer_number_written ensures: units of the result so far");
	REACH("return");
}
void harness_write_cps(void) { run_write(false); }
void harness_write_utf8(void) { run_write(true); }
void harness_nul_cps(void) { run_nul(false); }
void harness_nul_utf8(void) { run_nul(true); }
void harness_nul0_cps(void) { run_nul0(false); }
void harness_nul0_utf8(void) { run_nul0(true); }
void harness_winit_cps(void) { run_init(false); }
void harness_winit_utf8(void) { run_init(true); }
