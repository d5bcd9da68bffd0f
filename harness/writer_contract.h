/*
 * The contract of the writer.  Bookkeeping is exact, the memory effect is:
 *   write: if the codepoint fits (in UTF-8: with a byte to spare), its units
 *          are at the old position, and nothing else is changed
 *   terminate: NUL at VF_term(), if there is any room
 */
static inline size_t
VF_enclen(uint_least32_t c)
{
	if ((c >= 0xD800 && c <= 0xDFFF) || c > 0x10FFFF) c = 0xFFFD;
	return c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
}

static inline size_t
VF_unitlen(enum herodotus_type t, uint_least32_t c)
{
	return t == HERODOTUS_TYPE_UTF8 ? VF_enclen(c) : 1;
}

/* does it fit */
static inline _Bool
VF_fits(const HERODOTUS_WRITER *w, uint_least32_t c)
{
	return w->type == HERODOTUS_TYPE_UTF8 ? w->off + VF_enclen(c) < w->destlen : w->off < w->destlen;
}

static inline void
VF_write_contract(HERODOTUS_WRITER *w, uint_least32_t c)
{
	if (w->type == HERODOTUS_TYPE_UTF8 && !(w->dest != NULL && VF_fits(w, c)) && w->first_unwritable_offset == SIZE_MAX)
		w->first_unwritable_offset = w->off;
	w->off += VF_unitlen(w->type, c);
}

/* where the terminator goes (if destlen > 0) */
static inline size_t
VF_term(const HERODOTUS_WRITER *w)
{
	if (w->type == HERODOTUS_TYPE_UTF8 && w->first_unwritable_offset != SIZE_MAX) return w->first_unwritable_offset;
	return w->off < w->destlen ? w->off : w->destlen - 1;
}

/* invariant of a writer */
static inline _Bool
VF_wr_ok(const HERODOTUS_WRITER *w)
{
	if (w->type == HERODOTUS_TYPE_CODEPOINT) return w->first_unwritable_offset == SIZE_MAX;
	if (w->type != HERODOTUS_TYPE_UTF8) return 0;
	if (w->first_unwritable_offset == SIZE_MAX) return w->off == 0 || (w->dest != NULL && w->off < w->destlen);
	return w->first_unwritable_offset < w->off && (w->dest == NULL || w->off >= w->destlen) &&
	       (w->first_unwritable_offset == 0 || w->first_unwritable_offset < w->destlen);
}
