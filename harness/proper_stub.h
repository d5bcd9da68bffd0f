/* the contract as callee (see proper.h) */
#include "proper.h"

#ifdef VF_NOSTD
static void
VF_proper_fill(struct proper *p, size_t cur)
{
	uint_least8_t c[4];
	size_t nxt;
	VF_text_facts(cur);
	nxt = VF_RN(cur);
	for (int i = 0; i < 4; i++) __CPROVER_assume(c[i] < NPROPS);
	p->raw.next_prop[0] = cur < VF_END ? c[0] : p->no_prop;
	p->raw.next_prop[1] = nxt < VF_END ? c[1] : p->no_prop;
	/* what is not skipped is found among the raw classes or behind them */
	_Bool s0, s1;
	p->skip.next_prop[0] = cur < VF_END && s0 ? c[2] : p->no_prop;
	p->skip.next_prop[1] = nxt < VF_END && s0 && s1 ? c[3] : p->no_prop;
}
#else
#define VF_proper_fill(p, cur) do { \
	h_unfold(cur); \
	VF_text_facts(cur); \
	h_unfold(VF_RN(cur)); \
	(p)->raw.next_prop[0] = VF_P(cur); \
	(p)->raw.next_prop[1] = VF_P(VF_RN(cur)); \
	(p)->skip.next_prop[0] = VF_NS(cur); \
	(p)->skip.next_prop[1] = VF_NS(VF_NP(cur)); \
	} while (0)
#endif

void
proper_init(const HERODOTUS_READER *r, void *state, uint_least8_t no_prop,
            uint_least8_t (*get_break_prop)(uint_least32_t),
            bool (*is_skippable_prop)(uint_least8_t),
            void (*skip_shift_callback)(uint_least8_t, void *),
            struct proper *p)
{
	uint_least32_t cp;
	uint_least8_t c;
	VF_CHECK(VF_rdr_ok(r) && VF_rdr_nolimit(r), "precondition of proper_init: reader within the text");
	VF_CHECK(no_prop == NPROPS, "precondition of proper_init: no_prop is not a class");
	VF_CHECK(get_break_prop(cp) == VF_prop(cp), "precondition of proper_init: table lookup");
	__CPROVER_assume(c < NPROPS);
#ifndef VF_NOSTD
	VF_CHECK((is_skippable_prop(c) != 0) == (IS_SKIP(c) != 0), "precondition of proper_init: the skipped classes are those of the standard");
#endif
	p->state = state;
	p->no_prop = no_prop;
	p->get_break_prop = get_break_prop;
	p->is_skippable_prop = is_skippable_prop;
	p->skip_shift_callback = skip_shift_callback;
	herodotus_reader_copy(r, &p->mid_reader);
	p->raw.prev_prop[0] = p->raw.prev_prop[1] = no_prop;
	p->skip.prev_prop[0] = p->skip.prev_prop[1] = no_prop;
	VF_proper_fill(p, VF_abs(&p->mid_reader));
}

#ifdef VF_NOSTD
#define VF_UNTAMPERED 1
#define VF_PC(o) p->raw.next_prop[0]
#define IS_SKIPPED(c) p->is_skippable_prop(c)
#else
#define VF_PC(o) VF_P(o)
#define VF_UNTAMPERED VF_proper_next(p, VF_abs(&p->mid_reader))
#define IS_SKIPPED(c) IS_SKIP(c)
#endif
int
proper_advance(struct proper *p)
{
	uint_least32_t cp;
	uint_least8_t c;
	VF_CHECK(VF_rdr_ok(&p->mid_reader) && VF_rdr_nolimit(&p->mid_reader) && VF_UNTAMPERED, "precondition of proper_advance: state not tampered with");
	VF_text_facts(VF_abs(&p->mid_reader));
	if (VF_abs(&p->mid_reader) >= VF_END)
		return 1;
	c = VF_PC(VF_abs(&p->mid_reader));
	herodotus_read_codepoint(&p->mid_reader, true, &cp);
	p->raw.prev_prop[1] = p->raw.prev_prop[0];
	p->raw.prev_prop[0] = c;
	if (!IS_SKIPPED(c)) {
		p->skip.prev_prop[1] = p->skip.prev_prop[0];
		p->skip.prev_prop[0] = c;
		p->skip_shift_callback(c, p->state);
	}
	VF_proper_fill(p, VF_abs(&p->mid_reader));
	return 0;
}
