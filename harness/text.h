/*
 * Abstract text model and the contract of herodotus_read_codepoint().
 *
 * The text that is being processed is an arbitrary (unbounded) sequence of
 * codepoints, given by functions on absolute offsets:
 *
 *   VF_cp(o)  codepoint that starts at offset o
 *   VF_cl(o)  its length in units (1 for codepoint arrays, 1..4 for UTF-8)
 *   VF_isB(o) o is a codepoint boundary
 *   VF_END    first boundary at which reading stops, VF_KIND why:
 *             0 end of the given length, 1 NUL in a NUL-terminated string,
 *             2 incomplete sequence at the end of the given length
 *   VF_LEN    the length given by the caller, SIZE_MAX for NUL-terminated
 *
 * The function below is the contract of herodotus_read_codepoint(), written as
 * the most general code that satisfies it; check H01 proves that the real
 * function meets it for every buffer, length and reader state.
 */
#ifndef VF_TEXT_H
#define VF_TEXT_H

extern size_t VF_END, VF_LEN;
extern int VF_KIND;
extern char *VF_base;

/*
 * Functions of offsets are unbounded arrays of which nothing is known, and what
 * is said of them are macros, not functions: to read an array is an expression,
 * so that the verifier sees when two of them are the same.
 */
#define VF_FUN(type, name) extern const type name[__CPROVER_constant_infinity_uint]
VF_FUN(uint_least32_t, VF_cps);
VF_FUN(size_t, VF_cls);
VF_FUN(unsigned char, VF_bounds);

#define VF_cp(o) (VF_cps[o])
#if VF_UTF8
#define VF_UNIT 1
#define VF_cl(o) (VF_cls[o])
#define VF_isB(o) ((_Bool)(VF_bounds[o] & 1))
#define VF_TYPE HERODOTUS_TYPE_UTF8
#else
#define VF_UNIT 4
#define VF_cl(o) ((size_t)1)
#define VF_isB(o) ((_Bool)1)
#define VF_TYPE HERODOTUS_TYPE_CODEPOINT
#endif
#define VF_MAXLEN ((size_t)1 << 40)

#define VF_abs(r) \
	((size_t)__CPROVER_POINTER_OFFSET((r)->src) / VF_UNIT + (r)->off)

/* facts about the text at offset o (instances of its inductive definition) */
#if VF_UTF8
#define VF_text_facts(o) __CPROVER_assume(!((o) < VF_END && VF_isB(o)) || (VF_cl(o) >= 1 && VF_cl(o) <= 4 && (o) + VF_cl(o) <= VF_END && VF_isB((o) + VF_cl(o))))
#else
#define VF_text_facts(o) ((void)0)
#endif

/* representation invariant of a reader over the text */
#define VF_rbase(r) ((size_t)__CPROVER_POINTER_OFFSET((r)->src) / VF_UNIT)
#define VF_rdr_ok(r) (__CPROVER_same_object((r)->src, VF_base) && (r)->type == VF_TYPE && \
	VF_rbase(r) <= VF_END && (r)->off <= VF_END && VF_abs(r) <= VF_END && __CPROVER_POINTER_OFFSET((r)->src) % VF_UNIT == 0 && \
	VF_isB(VF_abs(r)) && (VF_LEN == SIZE_MAX ? (r)->srclen == SIZE_MAX : (r)->srclen == VF_LEN - VF_rbase(r)) && \
	(!(r)->terminated_by_null || VF_abs(r) == VF_END))

static inline _Bool
VF_rdr_nolimit(const HERODOTUS_READER *r)
{
	_Bool ok = 1;
	for (int i = 0; i < 10; i++) ok = ok && r->soft_limit[i] == SIZE_MAX;
	return ok;
}

static inline _Bool
VF_same_limits(const HERODOTUS_READER *r, const HERODOTUS_READER *e)
{
	_Bool ok = 1;
	for (int i = 0; i < 10; i++) ok = ok && r->soft_limit[i] == e->soft_limit[i];
	return ok;
}

static inline _Bool
VF_variant(const HERODOTUS_READER *r, size_t before)
{
	return VF_abs(r) > before && VF_abs(r) <= VF_END;
}

size_t VF_END, VF_LEN;
int VF_KIND;
char *VF_base;

static inline void
VF_setup_text(void)
{
	size_t end, len, size;
	int kind;

	__CPROVER_assume(end <= VF_MAXLEN);
	__CPROVER_assume(kind >= 0 && kind <= 2);
	if (kind == 1) len = SIZE_MAX;
	if (kind == 0) len = end;
	if (kind == 2) {
		__CPROVER_assume(VF_UNIT == 1);
		__CPROVER_assume(len > end && len - end <= 3);
	}
	size = (kind == 1 ? end + 1 : len) * VF_UNIT;
	VF_base = malloc(size);
	__CPROVER_assume(VF_base != NULL);
	VF_END = end;
	VF_LEN = len;
	VF_KIND = kind;
	__CPROVER_assume(VF_isB((size_t)0) && VF_isB(end));
}
#endif
