/*
 * Abstract text model and the contract of herodotus_read_codepoint().
 *
 * The text that is being processed is an arbitrary (unbounded) sequence of
 * codepoints, given by functions on absolute offsets:
 *
 *   VF_cp(o)  codepoint that starts at offset o
 *   VF_cl(o)  its length in units (1 for codepoint arrays, 1..4 for UTF-8)
 *   VF_isB(o) o is a codepoint boundary
 *   VF_END    first boundary at which reading stops, VF_KIND why:
 *             0 end of the given length, 1 NUL in a NUL-terminated string,
 *             2 incomplete sequence at the end of the given length
 *   VF_LEN    the length given by the caller, SIZE_MAX for NUL-terminated
 *
 * The function below is the contract of herodotus_read_codepoint(), written as
 * the most general code that satisfies it; check H01 proves that the real
 * function meets it for every buffer, length and reader state.
 */
#ifndef VF_TEXT_FN_H
#define VF_TEXT_FN_H

extern size_t VF_END, VF_LEN;
extern int VF_KIND;
extern char *VF_base;

uint_least32_t __CPROVER_uninterpreted_cp(size_t);
size_t __CPROVER_uninterpreted_cl(size_t);
_Bool __CPROVER_uninterpreted_isB(size_t);

#define VF_cp(o) __CPROVER_uninterpreted_cp(o)
#if VF_UTF8
#define VF_UNIT 1
#define VF_cl(o) __CPROVER_uninterpreted_cl(o)
#define VF_isB(o) __CPROVER_uninterpreted_isB(o)
#define VF_TYPE HERODOTUS_TYPE_UTF8
#else
#define VF_UNIT 4
#define VF_cl(o) ((size_t)1)
#define VF_isB(o) ((_Bool)1)
#define VF_TYPE HERODOTUS_TYPE_CODEPOINT
#endif
#define VF_MAXLEN ((size_t)1 << 40)

#define VF_abs(r) \
	((size_t)__CPROVER_POINTER_OFFSET((r)->src) / VF_UNIT + (r)->off)

/* facts about the text at offset o (instances of its inductive definition) */
static inline void
VF_text_facts(size_t o)
{
#if VF_UTF8
	if (o < VF_END && VF_isB(o)) {
		__CPROVER_assume(VF_cl(o) >= 1 && VF_cl(o) <= 4);
		__CPROVER_assume(o + VF_cl(o) <= VF_END);
		__CPROVER_assume(VF_isB(o + VF_cl(o)));
	}
#else
	(void)o;
#endif
}

/* representation invariant of a reader over the text */
static inline _Bool
VF_rdr_ok(const HERODOTUS_READER *r)
{
	size_t base = (size_t)__CPROVER_POINTER_OFFSET(r->src) / VF_UNIT;
	if (!__CPROVER_same_object(r->src, VF_base)) return 0;
	if (r->type != VF_TYPE) return 0;
	if (base > VF_END || r->off > VF_END || base + r->off > VF_END) return 0;
	if (__CPROVER_POINTER_OFFSET(r->src) % VF_UNIT) return 0;
	if (!VF_isB(base + r->off)) return 0;
	if (VF_LEN == SIZE_MAX ? r->srclen != SIZE_MAX
	                       : r->srclen != VF_LEN - base) return 0;
	if (r->terminated_by_null && base + r->off != VF_END) return 0;
	return 1;
}

static inline _Bool
VF_rdr_nolimit(const HERODOTUS_READER *r)
{
	_Bool ok = 1;
	for (int i = 0; i < 10; i++) ok = ok && r->soft_limit[i] == SIZE_MAX;
	return ok;
}

static inline _Bool
VF_same_limits(const HERODOTUS_READER *r, const HERODOTUS_READER *e)
{
	_Bool ok = 1;
	for (int i = 0; i < 10; i++) ok = ok && r->soft_limit[i] == e->soft_limit[i];
	return ok;
}

static inline _Bool
VF_variant(const HERODOTUS_READER *r, size_t before)
{
	return VF_abs(r) > before && VF_abs(r) <= VF_END;
}

void VF_on_advance(const HERODOTUS_READER *r, size_t from, size_t to,
                   uint_least32_t cp);
void VF_on_peek(size_t at, uint_least32_t cp);

#include "reader_contract.h"

enum herodotus_status
herodotus_read_codepoint(HERODOTUS_READER *r, bool advance, uint_least32_t *cp)
{
	size_t a;
	enum herodotus_status ret;

	VF_CHECK(VF_rdr_ok(r), "precondition of herodotus_read_codepoint: reader is within the text and at a codepoint boundary");
	__CPROVER_assume(VF_rdr_ok(r));
	a = VF_abs(r);
	VF_text_facts(a);
	VF_on_peek(a, VF_cp(a));
	ret = VF_read_contract(r, advance, cp, a == VF_END, VF_KIND, VF_cp(a), VF_cl(a));
	if (ret == HERODOTUS_STATUS_SUCCESS && advance)
		VF_on_advance(r, a, a + VF_cl(a), *cp);
	return ret;
}

size_t VF_END, VF_LEN;
int VF_KIND;
char *VF_base;

static inline void
VF_setup_text(void)
{
	size_t end, len, size;
	int kind;

	__CPROVER_assume(end <= VF_MAXLEN);
	__CPROVER_assume(kind >= 0 && kind <= 2);
	if (kind == 1) len = SIZE_MAX;
	if (kind == 0) len = end;
	if (kind == 2) {
		__CPROVER_assume(VF_UNIT == 1);
		__CPROVER_assume(len > end && len - end <= 3);
	}
	size = (kind == 1 ? end + 1 : len) * VF_UNIT;
	VF_base = malloc(size);
	__CPROVER_assume(VF_base != NULL);
	VF_END = end;
	VF_LEN = len;
	VF_KIND = kind;
	__CPROVER_assume(VF_isB((size_t)0) && VF_isB(end));
}
#endif
