/* proof harness for the text segmentation functions (after the code) */
void
harness(void)
{
	size_t ret;
	VF_setup_text();
	G.cur = 0;
	G.h = G.hp = h_init();
	G.last = 0;
#if VF_UTF8
	ret = FUNC_UTF8(VF_base, VF_LEN);
#else
	ret = FUNC((uint_least32_t *)VF_base, VF_LEN);
#endif
	h_unfold(G.cur);
	VF_text_facts(G.cur);
	VF_CHECK(ret == G.cur, "the returned offset is the length of the consumed prefix");
	VF_CHECK(ret > 0 || VF_END == 0, "progress: at least one codepoint is consumed");
	VF_CHECK(ret <= VF_END && VF_isB(ret), "the returned offset is within the text and at a codepoint boundary");
	VF_CHECK(ret == VF_END || VF_boundary_at_cur(), "the returned offset is a boundary or the end of the text");
	VF_REACH("return");
	if (ret == VF_END) VF_REACH("return at the end"); else VF_REACH("return at a boundary");
}

/* a NULL string is the empty string */
void
harness_null(void)
{
	size_t ret, len;
	VF_main = NULL;
	VF_END = 0;
	VF_LEN = len;
	VF_KIND = 3;
	VF_base = NULL;
	G.cur = 0;
	G.h = G.hp = h_init();
#if VF_UTF8
	ret = FUNC_UTF8(NULL, len);
#else
	ret = FUNC(NULL, len);
#endif
	VF_CHECK(ret == 0, "a NULL string has no boundary, the result is 0");
	VF_REACH("return");
}
