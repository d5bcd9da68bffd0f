/* contracts of the functions on isolating run sequences (see bidi_pre.h) */
/* ---- isolating run sequences */
#define VF_ir_ok(ir) ((ir)->next.off == SIZE_MAX || \
	((ir)->buf == VF_buf && (ir)->buflen <= VF_N && (ir)->next.off < (ir)->buflen))
#define VF_rank(x) ((x) == SIZE_MAX ? 0 : VF_N - (x))

static inline void
VF_ir_init(uint_least32_t *buf, size_t buflen, size_t off, uint_least8_t paragraph_level, bool within, struct isolate_runner *ir)
{
	struct isolate_runner any;
	VF_CHECK(buf == VF_buf && buflen <= VF_N && off < buflen, "ir_init requires: an offset within the buffer");
	VF_CHECK(paragraph_level <= 1, "ir_init requires: paragraph level");
	any.buf = buf;
	any.buflen = buflen;
	any.start = off;
	any.paragraph_level = paragraph_level;
	__CPROVER_assume(any.next.off == SIZE_MAX || (any.next.off >= off && any.next.off < buflen));
	__CPROVER_assume(any.next.off == SIZE_MAX || any.cur.off == SIZE_MAX || (within && any.cur.off >= 1 && any.cur.off <= any.next.off));
	*ir = any;
}

static inline int
VF_ir_advance(struct isolate_runner *ir)
{
	size_t next;
	enum bidi_property eos;
	VF_CHECK(VF_ir_ok(ir), "ir_advance requires: the next offset is within the buffer");
	if (ir->next.off == SIZE_MAX)
		return 1;
	ir->prev.off = ir->cur.off;
	ir->cur.off = ir->next.off;
	set_state(STATE_VISITED, 1, &(ir->buf[ir->cur.off]));
	__CPROVER_assume(next == SIZE_MAX || (next > ir->cur.off && next < ir->buflen));
	ir->next.off = next;
	if (next == SIZE_MAX)
		ir->eos = eos;
	return 0;
}

static inline const struct bracket *
VF_ir_bracket(const struct isolate_runner *ir)
{
	static struct bracket b;
	struct bracket any;
	VF_CHECK(ir->buf == VF_buf && ir->cur.off < VF_N, "ir_get_current_bracket_prop requires: the current offset is within the buffer");
	VF_CHECK(ir->cur.off != VF_J || VF_word_ok(VF_buf[VF_J]), "ir_get_current_bracket_prop requires: a bracket of the list");
	b = any;
	return &b;
}

/* contracts of what is built on them: reads and changes states of the buffer,
 * but not their brackets */
static inline void
VF_touch(void)
{
	VF_havoc_heap();
	__CPROVER_assume(VF_ghost_inv());
}
static inline enum bidi_property
VF_any_prop(const struct isolate_runner *ir)
{
	enum bidi_property p;
	VF_CHECK(ir->buf == VF_buf && ir->buflen <= VF_N && ir->start < ir->buflen && ir->paragraph_level <= 1, "ir_get_last_strong_*_prop requires: a start within the buffer");
	VF_touch();
	return p;
}
static inline void
VF_any_pair(const struct isolate_runner *a, const struct isolate_runner *b)
{
	VF_CHECK(VF_ir_ok(a) && a->buf == VF_buf && a->buflen <= VF_N && a->cur.off < a->buflen && a->start < a->buflen && a->paragraph_level <= 1, "preprocess_bracket_pair requires: opening bracket within the buffer");
	VF_CHECK(VF_ir_ok(b) && b->buf == VF_buf && b->buflen <= VF_N && b->cur.off < b->buflen, "preprocess_bracket_pair requires: closing bracket within the buffer");
	VF_touch();
}
static inline void
VF_any_pairs(uint_least32_t *buf, size_t buflen, size_t off, uint_least8_t paragraph_level)
{
	VF_CHECK(buf == VF_buf && buflen <= VF_N && off < buflen && paragraph_level <= 1, "preprocess_bracket_pairs requires: an offset within the buffer");
	VF_touch();
}
static inline size_t
VF_any_seq(uint_least32_t *buf, size_t buflen, size_t off, uint_least8_t paragraph_level)
{
	VF_CHECK(buf == VF_buf && buflen <= VF_N && off < buflen && paragraph_level <= 1, "preprocess_isolating_run_sequence requires: an offset within the buffer");
	VF_touch();
	return 0;
}
static inline uint_least8_t
VF_any_isolated(const uint_least32_t *state, size_t statelen)
{
	uint_least8_t l;
	VF_CHECK(__CPROVER_same_object(state, VF_buf) && (size_t)(state - VF_buf) <= VF_N && statelen <= VF_N - (size_t)(state - VF_buf), "get_isolated_paragraph_level requires: states within the buffer");
	__CPROVER_assume(l <= 1);
	return l;
}
static inline void
VF_any_paragraph(uint_least8_t paragraph_level, uint_least32_t *buf, size_t buflen)
{
	VF_CHECK(buf == VF_buf && buflen <= VF_N && buflen >= 1 && paragraph_level <= 1, "preprocess_paragraph requires: states within the buffer");
	VF_CHECK(VF_J >= buflen || VF_word_ok(VF_buf[VF_J]), "preprocess_paragraph requires: brackets of the list");
	VF_touch();
}
#ifdef T_TEXT
static inline uint_least8_t
VF_any_level(enum grapheme_bidirectional_direction override, const HERODOTUS_READER *r)
{
	uint_least8_t l;
	(void)override;
	VF_CHECK(VF_rdr_ok(r), "get_paragraph_level requires: reader within the text");
	__CPROVER_assume(l <= 1);
	return l;
}
#endif
#ifdef T_REORDER
static inline size_t
VF_any_break(const uint_least32_t *s, size_t len)
{
	size_t r;
	VF_CHECK(__CPROVER_same_object(s, VF_line) && (size_t)(s - VF_line) <= VF_linelen && len <= VF_linelen - (size_t)(s - VF_line), "grapheme_next_character_break requires: text within the line");
	__CPROVER_assume(r <= len && (r >= 1 || len == 0));
	return r;
}
size_t
grapheme_next_character_break(const uint_least32_t *s, size_t len)
{
	return VF_any_break(s, len);
}
static inline int_least16_t
VF_any_mirror(uint_least32_t cp)
{
	int_least16_t r;
	__CPROVER_assume(cp <= 0x10FFFF || r == 0);
	return r;
}
#endif
