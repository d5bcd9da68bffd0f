/* proof harness for proper_init() and proper_advance() (after the code) */
uint_least8_t VF_get(uint_least32_t cp) { return VF_prop(cp); }
bool VF_skip(uint_least8_t c) { return IS_SKIP(c); }
void VF_shift(uint_least8_t c, void *s)
{
	G.shifts++;
	G.shifted = c;
	G.shiftstate = s;
}

static void
VF_any_reader(HERODOTUS_READER *r, size_t pos)
{
	HERODOTUS_READER x;
	__CPROVER_assume(x.off <= pos && pos <= VF_END);
	x.type = VF_TYPE;
	x.src = VF_base + (pos - x.off) * VF_UNIT;
	x.srclen = VF_LEN == SIZE_MAX ? SIZE_MAX : VF_LEN - (pos - x.off);
	x.terminated_by_null = x.terminated_by_null ? 1 : 0;
	__CPROVER_assume(!x.terminated_by_null || (pos == VF_END && VF_KIND == 1));
	for (int i = 0; i < 10; i++) x.soft_limit[i] = SIZE_MAX;
	*r = x;
	__CPROVER_assume(VF_isB(pos));
	__CPROVER_assume(VF_rdr_ok(r));
	VF_CHECK(VF_rdr_nolimit(r), "harness");
}

void
harness_proper_init(void)
{
	struct proper p;
	HERODOTUS_READER r;
	size_t cur;
	void *state;
	uint_least8_t no;
	VF_setup_text();
	__CPROVER_assume(cur <= VF_END && VF_isB(cur));
	VF_any_reader(&r, cur);
	G.cur = cur;
	G.shifts = 0;
	h_unfold(cur);
	VF_text_facts(cur);
	proper_init(&r, state, NPROPS, VF_get, VF_skip, VF_shift, &p);
	VF_CHECK(p.state == state && p.no_prop == NPROPS && p.get_break_prop == VF_get && p.is_skippable_prop == VF_skip && p.skip_shift_callback == VF_shift, "proper_init ensures: parameters are kept");
	VF_CHECK(p.raw.prev_prop[0] == NPROPS && p.raw.prev_prop[1] == NPROPS && p.skip.prev_prop[0] == NPROPS && p.skip.prev_prop[1] == NPROPS, "proper_init ensures: nothing on the left");
	VF_CHECK(p.raw.next_prop[0] == VF_P(cur), "proper_init ensures: raw next 0");
	VF_CHECK(p.raw.next_prop[1] == VF_P(VF_RN(cur)), "proper_init ensures: raw next 1");
	VF_CHECK(p.skip.next_prop[0] == VF_NS(cur), "proper_init ensures: skip next 0");
	VF_CHECK(p.skip.next_prop[1] == VF_NS(VF_NP(cur)), "proper_init ensures: skip next 1");
	VF_CHECK(VF_proper_readers(&p, cur), "proper_init ensures: readers");
	VF_CHECK(p.mid_reader.off == 0, "proper_init ensures: the middle reader counts from here");
	VF_CHECK(G.shifts == 0, "proper_init ensures: no shift");
	VF_REACH("return");
	if (cur == VF_END) VF_REACH("return at the end");
}

void
harness_proper_advance(void)
{
	struct proper p, o;
	size_t cur, nxt;
	int ret;
	VF_setup_text();
	__CPROVER_assume(cur <= VF_END && VF_isB(cur));
	p.no_prop = NPROPS;
	p.get_break_prop = VF_get;
	p.is_skippable_prop = VF_skip;
	p.skip_shift_callback = VF_shift;
	h_unfold(cur);
	VF_text_facts(cur);
	nxt = VF_RN(cur);
	h_unfold(nxt);
	VF_text_facts(nxt);
	h_unfold(VF_NP(cur));
	VF_any_reader(&p.mid_reader, cur);
	VF_any_reader(&p.raw_reader, VF_RN(nxt));
	VF_any_reader(&p.skip_reader, VF_NP(VF_NP(cur)));
	__CPROVER_assume(VF_proper_next(&p, cur));
	G.cur = nxt; /* the position that is being established */
	G.shifts = 0;
	o = p;
	ret = proper_advance(&p);
	if (cur == VF_END) {
		VF_CHECK(ret != 0, "proper_advance ensures: reports the end");
		VF_CHECK(VF_abs(&p.mid_reader) == cur && p.mid_reader.off == o.mid_reader.off && G.shifts == 0, "proper_advance ensures: stays at the end");
		VF_CHECK(p.skip.prev_prop[0] == o.skip.prev_prop[0] && p.skip.prev_prop[1] == o.skip.prev_prop[1] && p.raw.prev_prop[0] == o.raw.prev_prop[0] && p.raw.prev_prop[1] == o.raw.prev_prop[1] , "proper_advance ensures: no shift at the end");
		VF_REACH("return at the end");
	} else {
		uint_least8_t c = VF_P(cur);
		_Bool s = IS_SKIP(c);
		VF_CHECK(ret == 0, "proper_advance ensures: reports success");
		VF_CHECK(p.raw.prev_prop[0] == c && p.raw.prev_prop[1] == o.raw.prev_prop[0], "proper_advance ensures: raw shift");
		VF_CHECK(p.skip.prev_prop[0] == (s ? o.skip.prev_prop[0] : c) && p.skip.prev_prop[1] == (s ? o.skip.prev_prop[1] : o.skip.prev_prop[0]), "proper_advance ensures: skip shift");
		VF_CHECK(G.shifts == (s ? 0 : 1) && (s || (G.shifted == c && G.shiftstate == o.state)), "proper_advance ensures: callback on every element");
		VF_CHECK(p.raw.next_prop[0] == VF_P(nxt), "proper_advance ensures: raw next 0");
		VF_CHECK(p.raw.next_prop[1] == VF_P(VF_RN(nxt)), "proper_advance ensures: raw next 1");
		VF_CHECK(p.skip.next_prop[0] == VF_NS(nxt), "proper_advance ensures: skip next 0");
		VF_CHECK(p.skip.next_prop[1] == VF_NS(VF_NP(nxt)), "proper_advance ensures: skip next 1");
		VF_CHECK(VF_proper_readers(&p, nxt), "proper_advance ensures: readers");
		VF_CHECK(p.mid_reader.src == o.mid_reader.src && p.mid_reader.off == o.mid_reader.off + (nxt - cur), "proper_advance ensures: the middle reader moves by one codepoint");
		VF_REACH("return");
	}
	VF_CHECK(p.state == o.state && p.no_prop == NPROPS && p.get_break_prop == VF_get && p.is_skippable_prop == VF_skip && p.skip_shift_callback == VF_shift, "proper_advance ensures: parameters are kept");
}
