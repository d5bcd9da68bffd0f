/* the other functions of the reader and the contract of an abstract text
 * (text.h): initialisation, copy, limits, number read */
#define herodotus_read_codepoint VF_real_read_codepoint
#include "src/util.c"
#undef herodotus_read_codepoint
#include "macros.h"
#include "text.h"
void VF_on_peek(size_t at, uint_least32_t cp) { (void)at; (void)cp; }
void VF_on_advance(const HERODOTUS_READER *r, size_t from, size_t to, uint_least32_t cp) { (void)r; (void)from; (void)to; (void)cp; }
#define REACH(d) __CPROVER_assert(0, "REACH " d)

static void
any_reader(HERODOTUS_READER *r)
{
	HERODOTUS_READER x;
	size_t base;
	__CPROVER_assume(base <= VF_END && x.off <= VF_END - base);
	x.type = VF_TYPE;
	x.src = VF_base + base * VF_UNIT;
	x.srclen = VF_LEN == SIZE_MAX ? SIZE_MAX : VF_LEN - base;
	x.terminated_by_null = x.terminated_by_null ? 1 : 0;
	__CPROVER_assume(!x.terminated_by_null || base + x.off == VF_END);
	for (int i = 0; i < 10; i++) __CPROVER_assume(x.soft_limit[i] == SIZE_MAX || x.soft_limit[i] <= VF_MAXLEN);
	__CPROVER_assume(VF_isB(base + x.off));
	*r = x;
	__CPROVER_assert(VF_rdr_ok(r), "harness: reader within the text");
}

/* absolute position of limit i */
static size_t
lim(const HERODOTUS_READER *r, int i)
{
	size_t base = VF_abs(r) - r->off;
	return r->soft_limit[i] == SIZE_MAX ? SIZE_MAX : base + r->soft_limit[i];
}

void
harness_init(void)
{
	HERODOTUS_READER r;
	VF_setup_text();
	herodotus_reader_init(&r, VF_TYPE, VF_base, VF_LEN);
	VF_CHECK(VF_rdr_ok(&r) && VF_abs(&r) == 0 && VF_rdr_nolimit(&r) && !r.terminated_by_null, "herodotus_reader_init ensures: reader at the start of the text, no limits");
	VF_CHECK(herodotus_reader_number_read(&r) == 0, "herodotus_reader_number_read ensures: nothing read");
	REACH("return");
}

void
harness_copy(void)
{
	HERODOTUS_READER r, o, c;
	int i;
	VF_setup_text();
	any_reader(&r);
	o = r;
	herodotus_reader_copy(&r, &c);
	VF_CHECK(VF_rdr_ok(&c) && VF_abs(&c) == VF_abs(&o), "herodotus_reader_copy ensures: same position in the same text");
	VF_CHECK(herodotus_reader_number_read(&c) == 0, "herodotus_reader_copy ensures: counts from here");
	VF_CHECK(c.terminated_by_null == o.terminated_by_null, "herodotus_reader_copy ensures: end of terminated text");
	__CPROVER_assume(i >= 0 && i < 10);
	VF_CHECK(lim(&c, i) == (lim(&o, i) == SIZE_MAX ? SIZE_MAX : MAX(lim(&o, i), VF_abs(&o))), "herodotus_reader_copy ensures: limits stay where they are in the text");
	VF_CHECK(r.src == o.src && r.off == o.off && r.srclen == o.srclen && r.type == o.type && r.terminated_by_null == o.terminated_by_null && VF_same_limits(&r, &o), "herodotus_reader_copy ensures: the source is not changed");
	VF_CHECK(herodotus_reader_number_read(&r) == r.off, "herodotus_reader_number_read ensures: units between the start of the reader and its position");
	REACH("return");
}

void
harness_limits(void)
{
	HERODOTUS_READER r, o;
	size_t n;
	int i;
	VF_setup_text();
	any_reader(&r);
	o = r;
	__CPROVER_assume(n <= VF_MAXLEN);
	herodotus_reader_push_advance_limit(&r, n);
	VF_CHECK(lim(&r, 0) == VF_abs(&o) + n, "herodotus_reader_push_advance_limit ensures: the new limit is n units ahead");
	__CPROVER_assume(i >= 0 && i < 9);
	VF_CHECK(r.soft_limit[i + 1] == o.soft_limit[i], "herodotus_reader_push_advance_limit ensures: the others are kept");
	VF_CHECK(VF_rdr_ok(&r) && VF_abs(&r) == VF_abs(&o) && r.off == o.off, "herodotus_reader_push_advance_limit ensures: position");
	herodotus_reader_pop_limit(&r);
	VF_CHECK(r.soft_limit[i] == o.soft_limit[i], "herodotus_reader_pop_limit ensures: the limits before");
	VF_CHECK(VF_rdr_ok(&r) && VF_abs(&r) == VF_abs(&o) && r.off == o.off, "herodotus_reader_pop_limit ensures: position");
	REACH("return");
}
