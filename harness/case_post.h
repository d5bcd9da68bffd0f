/* proof harness for case conversion and detection (after the code) */
static void
setup_case(void)
{
	size_t n;
	void *d;
	VF_setup_text();
	VF_dest = d;
	VF_destlen = n;
	G.o = 0;
	G.k = 0;
	G.lvl = 0;
	G.mode = 0;
	G.wend = VF_TITLE ? 0 : VF_END;
	G.out = 0;
	G.fu = SIZE_MAX;
	G.nul = 0;
	VF_unfold((size_t)0);
}

#if VF_PART == 1 || VF_PART == 2
void
harness(void)
{
	HERODOTUS_READER r, o;
	HERODOTUS_WRITER w;
	const uint_least16_t *major = VF_PART == 1 ? title_major : lower_major;
	const int_least32_t *minor = VF_PART == 1 ? title_minor : lower_minor;
	const struct special_case *sc = VF_PART == 1 ? title_special : lower_special;
	uint_least8_t level = VF_PART == 1 ? 0 : 1;
	size_t end, ret;
	setup_case();
	VF_havoc_ghost();
	r.src = VF_base;
	w.type = VF_TYPE;
	w.dest = VF_dest;
	w.destlen = VF_destlen;
	w.off = G.out;
	w.first_unwritable_offset = G.fu;
	__CPROVER_assume(VF_ghost_inv());
	VF_unfold(G.o);
	__CPROVER_assume(VF_tc_reader(&r));
	__CPROVER_assume(VF_PART == 1 ? VF_tc_lead(&r, level, major, minor, sc) : VF_tc_rest(&r, level, major, minor, sc));
	o = r;
	end = VF_lim(&r);
	__CPROVER_assume(end <= G.wend);
	ret = VF_CALL(&r, &w, level, major, minor, sc);
	VF_account(&w);
	VF_CHECK(VF_rdr_ok(&r) && r.src == o.src && r.srclen == o.srclen && r.type == o.type && r.terminated_by_null == o.terminated_by_null && VF_same_limits(&r, &o), "to_case assigns: the offset of the reader only");
	VF_CHECK(VF_abs(&r) == end && G.o == end && G.k == 0, "to_case ensures: everything up to the limit is converted");
	VF_CHECK(G.mode == 1 && (VF_PART == 2 || G.lvl), "to_case ensures: behind the first cased codepoint of the word");
	VF_CHECK(ret == G.out && G.nul, "to_case ensures: returned length, terminated");
	VF_REACH("return");
}
#else
void
harness(void)
{
	setup_case();
#if VF_IS
	{
		_Bool ret, want;
		_Bool none;
		size_t len, *p = none ? NULL : &len;
		ret = FUNC((VF_CHAR *)VF_base, VF_LEN, p);
		VF_enter();
		VF_unfold(G.o);
		VF_CHECK(p == NULL || len == G.o, "the reported length is what was passed over");
#ifndef VF_NOSTD
		if (ret) {
			VF_CHECK(G.o == VF_END, "true only if the conversion changes nothing in the whole text");
			VF_REACH("return true");
		} else {
			VF_CHECK(G.o < VF_END && !VF_unch(VF_kind(VF_prop(VF_cp(G.o))), VF_cp(G.o)), "false only if the conversion changes the codepoint at the reported length");
			VF_REACH("return false");
		}
#endif
	}
#else
	{
		size_t ret = FUNC((VF_CHAR *)VF_base, VF_LEN, VF_dest, VF_destlen);
#ifndef VF_NOSTD
		VF_CHECK(G.o == VF_END && G.k == 0, "the result is complete");
#endif
		VF_CHECK(ret == G.out, "the returned length is that of the complete result");
		VF_CHECK(G.nul, "the result is terminated at the end");
	}
#endif
	VF_REACH("return");
}
#endif
