/* the words of the buffer: what set_state() writes, get_state() reads */
static int_least16_t
vf_top(enum state_type t)
{
	switch (t) {
	case STATE_PROP:
	case STATE_PRESERVED_PROP:
		return NUM_BIDI_PROPS;
	case STATE_BRACKET_OFF:
		return 127;
	case STATE_LEVEL:
		return 126;
	default:
		return 1;
	}
}
void
harness_words(void)
{
	struct isolate_runner ir;
	uint_least32_t w, v, cp;
	int t, u;
	int_least16_t x;
	__CPROVER_assume(t >= 0 && t < LEN(state_lut) && u >= 0 && u < LEN(state_lut) && x <= vf_top(t) && x >= (t == STATE_LEVEL ? -1 : 0));
	v = w;
	set_state(t, x, &v);
	CHECK(get_state(t, v) == x, "set_state ensures: the value can be read again");
	CHECK(u == t || get_state(u, v) == get_state(u, w), "set_state assigns: one value only");
	CHECK(get_bidi_bracket_off(cp) < 128 && get_bidi_bracket_off(cp) < LEN(bidi_bracket), "get_bidi_bracket_off ensures: a bracket of the list");
	CHECK(get_bidi_property(cp) < NUM_BIDI_PROPS, "get_bidi_property ensures: a class");
	ir.buf = &w;
	ir.cur.off = 0;
	__CPROVER_assume(get_state(STATE_BRACKET_OFF, w) >= 0 && get_state(STATE_BRACKET_OFF, w) < LEN(bidi_bracket));
	const struct bracket *b = ir_get_current_bracket_prop(&ir);
	CHECK(b == bidi_bracket + get_state(STATE_BRACKET_OFF, w), "ir_get_current_bracket_prop ensures: the bracket of the state");
	REACH("words");
}
