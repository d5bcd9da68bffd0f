/*
 * The contract of herodotus_read_codepoint() as the most general code that
 * satisfies it.  `at_end`: the text ends at the reader's position, `kind` why
 * (see text.h); otherwise `c` is the codepoint there and `len` its length.
 */
static inline enum herodotus_status
VF_read_contract(HERODOTUS_READER *r, bool advance, uint_least32_t *cp,
                 bool at_end, int kind, uint_least32_t c, size_t len)
{
	uint_least32_t any;

	*cp = any;
	if (r->terminated_by_null || (kind == 0 && at_end))
		return HERODOTUS_STATUS_END_OF_BUFFER;
	if (r->off >= r->soft_limit[0])
		return HERODOTUS_STATUS_SOFT_LIMIT_REACHED;
	if (at_end) {
		if (kind == 1)
			r->terminated_by_null = true;
		return HERODOTUS_STATUS_END_OF_BUFFER;
	}
	*cp = c;
	if (r->off + len > r->soft_limit[0])
		return HERODOTUS_STATUS_END_OF_BUFFER;
	if (advance)
		r->off += len;
	return HERODOTUS_STATUS_SUCCESS;
}
