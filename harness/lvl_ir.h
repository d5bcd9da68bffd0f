/* contracts of the functions called in the proofs of lvl_post.h */
#ifdef L_PARA
static inline uint_least8_t
VF_isolated(const uint_least32_t *state, size_t statelen)
{
	size_t o = (size_t)(state - VF_buf);
	VF_CHECK(__CPROVER_same_object(state, VF_buf) && o <= VF_PLEN && statelen == VF_PLEN - o, "get_isolated_paragraph_level requires: the rest of the paragraph");
	VF_CHECK(VF_J < o || !VF_in(VF_J) || VF_F(PROP, VF_buf[VF_J]) == VF_P0(VF_J), "get_isolated_paragraph_level requires: classes which are those of the text");
	return VF_I0(o);
}
static inline size_t
VF_sequence(uint_least32_t *buf, size_t buflen, size_t off, uint_least8_t paragraph_level)
{
	uint_least32_t w = 0;
	VF_CHECK(buf == VF_buf && buflen == VF_PLEN && off < buflen && paragraph_level == VF_PL, "preprocess_isolating_run_sequence requires: the paragraph");
	VF_CHECK(G.off == VF_PLEN && VF_at(seq, VF_J), "preprocess_isolating_run_sequence requires: levels and classes of X1-X9");
	VF_CHECK(VF_F(VISITED, buf[off]) == 0 && VF_F(LEVEL, buf[off]) != -1, "preprocess_isolating_run_sequence requires: the start of a sequence that has not been resolved");
	VF_CHECK(VF_J >= off || VF_F(VISITED, buf[VF_J]) || VF_XL(VF_J) == -1, "preprocess_isolating_run_sequence requires: sequences in the order of their starts");
	if (VF_J < VF_N) w = VF_buf[VF_J];
	VF_havoc_heap();
	__CPROVER_assume(VF_at(seq, VF_J));
	if (VF_in(VF_J)) {
		__CPROVER_assume(!VF_F(VISITED, w) || VF_buf[VF_J] == w);
		__CPROVER_assume(VF_J != off || VF_F(VISITED, VF_buf[VF_J]));
	} else if (VF_J < VF_N) {
		__CPROVER_assume(VF_buf[VF_J] == w);
	}
	return 0;
}
#endif
#ifdef L_PREPROCESS
static inline uint_least8_t
VF_level(enum grapheme_bidirectional_direction override, const HERODOTUS_READER *r)
{
	VF_CHECK(VF_rdr_ok(r) && VF_abs(r) == 0 && override == VF_override, "get_paragraph_level requires: override and reader at the start of the paragraph");
	return VF_PL;
}
static inline void
VF_paragraph(uint_least8_t paragraph_level, uint_least32_t *buf, size_t buflen)
{
	VF_CHECK(buf == VF_buf && buflen == (VF_PE < VF_N ? VF_PE : VF_N) && buflen >= 1, "preprocess_paragraph requires: the paragraph, as far as it fits");
	VF_CHECK(paragraph_level == VF_PL, "preprocess_paragraph requires: the paragraph level");
	if (VF_J < buflen) {
		uint_least32_t w = buf[VF_J];
		uint_least8_t c = VF_prop(VF_cp(VF_J));
		VF_CHECK(VF_F(PROP, w) == c && VF_F(PRESERVED_PROP, w) == c, "preprocess_paragraph requires: the class of every character");
		VF_CHECK(VF_F(BRACKET_OFF, w) == VF_bracket_off(VF_cp(VF_J)), "preprocess_paragraph requires: the bracket of every character");
		VF_CHECK(VF_F(LEVEL, w) == 0 && VF_F(VISITED, w) == 0 && VF_F(PAIRED, w) == 0, "preprocess_paragraph requires: no level, no mark");
	}
	VF_called = 1;
}
#endif
