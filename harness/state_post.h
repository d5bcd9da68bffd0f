/* contract of grapheme_is_character_break(): one step of any history */
void
harness(void)
{
	struct cb_hist h, n;
	uint_least16_t s, t;
	uint_least32_t c0, c1;
	_Bool b;

	/* a reset state stands for the text that consists of the first codepoint */
	h_norm(&h);
	n = cb_step(cb_init(), VF_prop(c0));
	VF_CHECK(VF_state_of(0, n), "base: a reset state stands for a text of one codepoint");
	VF_CHECK(cb_wf(n), "base: history is well-formed");

	/* without a state: as with a reset state */
	b = grapheme_is_character_break(c0, c1, NULL);
	VF_CHECK(b == cb_isb(n, VF_prop(c1), 0), "without a state the result is that of a reset state");
	t = 0;
	VF_CHECK(b == grapheme_is_character_break(c0, c1, &t), "without a state the result is that of a call with a reset state");

	/* step: the state stands for the history h, whose last codepoint is c0 */
	__CPROVER_assume(cb_wf(h) && h.prev == VF_prop(c0) && VF_state_of(s, h));
	t = s;
	b = grapheme_is_character_break(c0, c1, &t);
	VF_CHECK(b == cb_isb(h, VF_prop(c1), 0), "the result is that of UAX #29 for the whole history");
	VF_CHECK(VF_state_of(t, cb_step(h, VF_prop(c1))), "the new state stands for the extended history");
	VF_CHECK(cb_wf(cb_step(h, VF_prop(c1))), "histories stay well-formed");
	VF_REACH("return");
	if (b) VF_REACH("a boundary"); else VF_REACH("no boundary");
	if (h.pictzwj) VF_REACH("emoji sequence");
	if (h.ri) VF_REACH("odd number of regional indicators");
}
