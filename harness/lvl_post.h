/* entry points of the proofs in lvl_pre.h */
#ifdef L_LEVEL
void
harness(void)
{
	HERODOTUS_READER r;
	enum grapheme_bidirectional_direction dir;
	uint_least8_t l;
	VF_setup_text();
	r.src = VF_base;
	__CPROVER_assume(VF_rdr_ok(&r) && VF_rdr_nolimit(&r));
	G.off = VF_abs(&r);
	G.depth = 0;
	G.done = 0;
	G.level = 0;
	l = get_paragraph_level(dir, &r);
	if (dir == GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR) {
		VF_CHECK(l == 0, "HL1: the level is overridden with 0");
		VF_REACH("return ltr");
	} else if (dir == GRAPHEME_BIDIRECTIONAL_DIRECTION_RTL) {
		VF_CHECK(l == 1, "HL1: the level is overridden with 1");
		VF_REACH("return rtl");
	} else {
		VF_CHECK(G.done || G.off == VF_END, "P1-P3: the text has been read as far as it decides");
		VF_CHECK(l == (G.done ? G.level : 0), "P2, P3: the level is that of the first strong character outside of isolates, or 0");
		VF_REACH("return");
	}
}
#endif
#ifdef L_ISOLATED
void
harness(void)
{
	size_t n;
	__CPROVER_assume(n <= VF_MAXN);
	VF_states = malloc(n * sizeof(*VF_states));
	VF_statelen = n;
	VF_unfold(0, 0);
	VF_CHECK(get_isolated_paragraph_level(VF_states, n) == VF_I(0, 0), "P2, P3 for FSI: the level of the first strong character up to the matching PDI, or 0");
	VF_REACH("return");
}
#endif
#ifdef L_PARA
void
harness(void)
{
	size_t n, j, p;
	VF_N = n;
	VF_J = j;
	VF_PLEN = p;
	__CPROVER_assume(VF_N >= 1 && VF_N <= VF_MAXN && VF_PLEN >= 1 && VF_PLEN <= VF_N && VF_PL <= 1);
	VF_buf = malloc(VF_N * sizeof(*VF_buf));
	__CPROVER_assume(VF_J >= VF_PLEN || VF_w_start(VF_buf[VF_J], VF_J));
	uint_least32_t w = VF_J < VF_N ? VF_buf[VF_J] : 0;
	__CPROVER_assume(VF_J < VF_PLEN || VF_J >= VF_N || VF_buf[VF_J] == __CPROVER_uninterpreted_w0(VF_J));
	G.off = 0;
	G.depth = 0;
	G.done = 0;
	G.level = 0;
	/* X1 */
	G.n = 0;
	G.ovi = G.ove = G.valid = 0;
	G.lv[0] = VF_PL;
	G.ov[0] = VF_DIR(NEUTRAL);
	G.is[0] = 0;
	G.iso[0] = 0;
	VF_Tunf(VF_PLEN);
	preprocess_paragraph(VF_PL, VF_buf, VF_PLEN);
	VF_CHECK(G.off == VF_PLEN, "X1-X9: every character has got its level");
	VF_CHECK(VF_J >= VF_PLEN || VF_F(LEVEL, VF_buf[VF_J]) == VF_FL(VF_J), "the level of every character is that of X1-X9, I1-I2, L1 (1-3)");
	VF_CHECK(VF_J >= VF_PLEN || VF_F(PRESERVED_PROP, VF_buf[VF_J]) == VF_P0(VF_J), "the original class of every character is kept for L1.4");
	VF_CHECK(VF_J >= VF_PLEN || VF_F(PARAGRAPH_LEVEL, VF_buf[VF_J]) == VF_PL, "the paragraph level is stored with every character");
	VF_CHECK(VF_J < VF_PLEN || VF_J >= VF_N || VF_buf[VF_J] == w, "nothing is changed behind the paragraph");
	VF_REACH("return");
}
#endif
#ifdef L_PREPROCESS
void
harness(void)
{
	enum grapheme_bidirectional_direction dir, res;
	size_t n, r, j, e;
	_Bool nobuf, nores;
	VF_N = n;
	VF_override = dir;
	__CPROVER_assume(VF_N <= VF_MAXN && VF_PL <= 1);
	VF_buf = malloc(VF_N * sizeof(*VF_buf));
	VF_setup_text();
	VF_J = j;
	VF_PE = e;
	__CPROVER_assume(VF_PE <= VF_END && (VF_PE >= 1 || VF_END == 0));
	VF_called = 0;
	r = grapheme_bidirectional_preprocess_paragraph((uint_least32_t *)VF_base, VF_LEN, dir, nobuf ? NULL : VF_buf, nobuf ? n : VF_N, nores ? NULL : &res);
	VF_CHECK(r == VF_PE, "P1: the result is the length of the first paragraph");
	VF_CHECK(nores || res == (VF_PL ? GRAPHEME_BIDIRECTIONAL_DIRECTION_RTL : GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR), "the resolved direction is that of the paragraph level");
	VF_CHECK(VF_called || nobuf || VF_N == 0 || VF_END == 0, "the paragraph is processed");
	VF_REACH("return");
	if (nobuf) VF_REACH("return without a buffer");
	else if (r > VF_N) VF_REACH("return with a small buffer");
}
#endif
