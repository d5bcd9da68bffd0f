/* entry points of the proofs in bidi_pre.h */
#ifndef LEN
#define LEN(x) (sizeof(x) / sizeof(*(x)))
#endif
#if !defined(T_LINE) && !defined(T_REORDER)
static void
setup(void)
{
	size_t n, j;
	VF_N = n;
	VF_J = j;
	__CPROVER_assume(VF_N >= 1 && VF_N <= VF_MAXN);
	VF_buf = malloc(VF_N * sizeof(*VF_buf));
	__CPROVER_assume(VF_ghost_inv());
}
#endif

#ifdef T_IR_INIT
void
harness(void)
{
	struct isolate_runner ir;
	size_t buflen, off;
	uint_least8_t pl;
	bool within;
	setup();
	uint_least32_t w = VF_buf[VF_J < VF_N ? VF_J : 0];
	__CPROVER_assume(buflen <= VF_N && off < buflen && pl <= 1);
	ir_init(VF_buf, buflen, off, pl, within, &ir);
	VF_CHECK(ir.next.off == SIZE_MAX || (ir.next.off >= off && ir.next.off < buflen), "ir_init ensures: next is SIZE_MAX or within the buffer");
	VF_CHECK(ir.next.off == SIZE_MAX || ir.cur.off == SIZE_MAX || (within && ir.cur.off >= 1 && ir.cur.off <= ir.next.off), "ir_init ensures: what is shifted in");
	VF_CHECK(ir.buf == VF_buf && ir.buflen == buflen && ir.paragraph_level == pl && ir.start == off, "ir_init ensures: buffer, start and paragraph level");
	VF_CHECK(w == VF_buf[VF_J < VF_N ? VF_J : 0], "ir_init assigns nothing in the buffer");
	VF_REACH("return");
}
#endif
#ifdef T_IR_ADVANCE
void
harness(void)
{
	struct isolate_runner ir, o;
	int r;
	setup();
	uint_least32_t w = VF_buf[VF_J < VF_N ? VF_J : 0];
	ir.buf = VF_buf;
	__CPROVER_assume(VF_ir_ok(&ir) && ir.paragraph_level <= 1);
	o = ir;
	r = ir_advance(&ir);
	VF_CHECK((r != 0) == (o.next.off == SIZE_MAX), "ir_advance ensures: tells the end of the sequence");
	VF_CHECK(ir.buf == o.buf && ir.buflen == o.buflen && ir.start == o.start && ir.sos == o.sos && ir.paragraph_level == o.paragraph_level && ir.isolating_run_level == o.isolating_run_level, "ir_advance assigns: offsets and eos only");
	if (r) {
		VF_CHECK(ir.prev.off == o.prev.off && ir.cur.off == o.cur.off && ir.next.off == o.next.off && ir.eos == o.eos, "ir_advance ensures: nothing changes at the end");
		VF_CHECK(VF_J >= VF_N || VF_buf[VF_J] == w, "ir_advance assigns nothing in the buffer at the end");
	} else {
		VF_CHECK(ir.prev.off == o.cur.off && ir.cur.off == o.next.off, "ir_advance ensures: shifts");
		VF_CHECK(ir.next.off == SIZE_MAX || (ir.next.off > ir.cur.off && ir.next.off < ir.buflen), "ir_advance ensures: next is SIZE_MAX or behind the current offset, within the buffer");
		VF_CHECK(ir.next.off == SIZE_MAX || ir.eos == o.eos, "ir_advance ensures: eos is set at the end");
		if (VF_J < VF_N) {
			if (VF_J == ir.cur.off) set_state(STATE_VISITED, 1, &w);
			VF_CHECK(VF_buf[VF_J] == w, "ir_advance assigns: the mark of the current state only");
		}
	}
	VF_REACH("return");
}
#endif
#if defined(T_LAST_STRONG) || defined(T_LAST_NUMBER)
void
harness(void)
{
	struct isolate_runner ir;
	setup();
	ir.buf = VF_buf;
	__CPROVER_assume(ir.buflen <= VF_N && ir.start < ir.buflen && ir.paragraph_level <= 1);
#ifdef T_LAST_STRONG
	(void)ir_get_last_strong_prop(&ir);
#else
	(void)ir_get_last_strong_or_number_prop(&ir);
#endif
	VF_CHECK(VF_ghost_inv(), "the states stay valid");
	VF_REACH("return");
}
#endif
#ifdef T_PAIR
void
harness(void)
{
	struct isolate_runner a, b;
	setup();
	a.buf = b.buf = VF_buf;
	__CPROVER_assume(VF_ir_ok(&a) && a.buflen <= VF_N && a.cur.off < a.buflen && a.start < a.buflen && a.paragraph_level <= 1);
	__CPROVER_assume(VF_ir_ok(&b) && b.buflen <= VF_N && b.cur.off < b.buflen);
	preprocess_bracket_pair(&a, &b);
	VF_CHECK(VF_ghost_inv(), "the states stay valid");
	VF_REACH("return");
}
#endif
#if defined(T_PAIRS) || defined(T_SEQ)
void
harness(void)
{
	size_t buflen, off;
	uint_least8_t pl;
	setup();
	__CPROVER_assume(buflen <= VF_N && off < buflen && pl <= 1);
#ifdef T_PAIRS
	preprocess_bracket_pairs(VF_buf, buflen, off, pl);
#else
	VF_CHECK(preprocess_isolating_run_sequence(VF_buf, buflen, off, pl) == 0, "preprocess_isolating_run_sequence ensures: nothing is skipped");
#endif
	VF_CHECK(VF_ghost_inv(), "the states stay valid");
	VF_REACH("return");
}
#endif
#ifdef T_ISOLATED
void
harness(void)
{
	size_t off, len;
	setup();
	__CPROVER_assume(off <= VF_N && len <= VF_N - off);
	VF_CHECK(get_isolated_paragraph_level(VF_buf + off, len) <= 1, "get_isolated_paragraph_level ensures: a level");
	VF_REACH("return");
}
#endif
#ifdef T_PARA
void
harness(void)
{
	size_t buflen;
	uint_least8_t pl;
	setup();
	__CPROVER_assume(buflen <= VF_N && buflen >= 1 && pl <= 1);
	preprocess_paragraph(pl, VF_buf, buflen);
	VF_CHECK(VF_ghost_inv(), "the states stay valid");
	VF_REACH("return");
}
#endif
#ifdef T_LEVEL
void
harness(void)
{
	HERODOTUS_READER r;
	enum grapheme_bidirectional_direction dir;
	setup();
	VF_setup_text();
	r.src = VF_base;
	__CPROVER_assume(VF_rdr_ok(&r) && VF_rdr_nolimit(&r));
	VF_CHECK(get_paragraph_level(dir, &r) <= 1, "get_paragraph_level ensures: a level");
	VF_REACH("return");
}
#endif
#ifdef T_PREPROCESS
void
harness(void)
{
	enum grapheme_bidirectional_direction dir, res;
	size_t n, r, j;
	_Bool nobuf, nores;
	VF_N = n;
	__CPROVER_assume(VF_N <= VF_MAXN);
	VF_buf = malloc(VF_N * sizeof(*VF_buf));
	VF_setup_text();
	VF_J = j;
	r = grapheme_bidirectional_preprocess_paragraph((uint_least32_t *)VF_base, VF_LEN, dir, nobuf ? NULL : VF_buf, nobuf ? n : VF_N, nores ? NULL : &res);
	VF_CHECK(nores || res == GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR || res == GRAPHEME_BIDIRECTIONAL_DIRECTION_RTL, "preprocess ensures: the direction is resolved");
	VF_CHECK(r <= VF_END && (r >= 1 || VF_END == 0), "preprocess ensures: the result is within the text, and progress");
	VF_REACH("return");
	if (nobuf) VF_REACH("return without a buffer");
	else if (r > VF_N) VF_REACH("return with a small buffer");
}
#endif
#if defined(T_LINE) || defined(T_REORDER)
void
harness(void)
{
	size_t r, n, m;
	VF_N = n;
	VF_linelen = n;
	VF_outlen = m;
	__CPROVER_assume(n <= VF_MAXN && m <= VF_MAXN);
	VF_linedata = malloc(n * sizeof(*VF_linedata));
	VF_line = malloc(n * sizeof(*VF_line));
#ifdef T_LINE
	VF_out = malloc(m);
	r = grapheme_bidirectional_get_line_embedding_levels(VF_linedata, n, VF_out, m);
	VF_CHECK(r == n, "get_line_embedding_levels ensures: the number of levels");
#else
	VF_out = malloc(m * sizeof(uint_least32_t));
	r = grapheme_bidirectional_reorder_line(VF_line, VF_linedata, n, VF_out, m);
	VF_CHECK(r <= n, "reorder_line ensures: at most as long as the line");
#endif
	VF_REACH("return");
}
#endif
