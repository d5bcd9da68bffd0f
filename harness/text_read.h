/*
 * herodotus_read_codepoint() as its contract (see text.h).  The harness defines
 *   VF_on_advance(r, from, to, cp)   a codepoint has been consumed
 *   VF_on_peek(at)                   macro: facts about the offset at
 */
void VF_on_advance(const HERODOTUS_READER *r, size_t from, size_t to,
                   uint_least32_t cp);

#include "reader_contract.h"

enum herodotus_status
herodotus_read_codepoint(HERODOTUS_READER *r, bool advance, uint_least32_t *cp)
{
	size_t a;
	enum herodotus_status ret;

	VF_CHECK(VF_rdr_ok(r), "precondition of herodotus_read_codepoint: reader is within the text and at a codepoint boundary");
	__CPROVER_assume(VF_rdr_ok(r));
	a = VF_abs(r);
	VF_text_facts(VF_abs(r));
	VF_on_peek(VF_abs(r));
	ret = VF_read_contract(r, advance, cp, a == VF_END, VF_KIND, VF_cp(VF_abs(r)), VF_cl(VF_abs(r)));
	if (ret == HERODOTUS_STATUS_SUCCESS && advance)
		VF_on_advance(r, a, VF_abs(r), *cp);
	return ret;
}

