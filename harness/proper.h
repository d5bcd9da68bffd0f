/*
 * Contract of proper_init() and proper_advance() (src/util.c): the two-track
 * view of the text around a position `cur` that word.c and sentence.c use.
 *
 *   raw.next_prop  = class at cur, class behind it       (no_prop at the end)
 *   skip.next_prop = the next two elements at or behind cur, skipping
 *   raw.prev_prop, skip.prev_prop: what was shifted over the position
 *   mid_reader at cur; raw_reader two codepoints ahead; skip_reader behind the
 *   second element ahead
 *
 * As stub it is the callee of the proofs of next_word_break() and
 * next_sentence_break(); harness_proper_init and harness_proper_advance prove
 * that the real functions satisfy it.
 */
#define VF_proper_next(p, cur) ((p)->raw.next_prop[0] == VF_P(cur) && \
       (p)->raw.next_prop[1] == VF_P(VF_RN(cur)) && \
       (p)->skip.next_prop[0] == VF_NS(cur) && \
       (p)->skip.next_prop[1] == VF_NS(VF_NP(cur)))

#define VF_proper_readers(p, cur) (VF_rdr_ok(&(p)->raw_reader) && VF_rdr_ok(&(p)->skip_reader) && VF_rdr_ok(&(p)->mid_reader) && \
       VF_rdr_nolimit(&(p)->raw_reader) && VF_rdr_nolimit(&(p)->skip_reader) && VF_rdr_nolimit(&(p)->mid_reader) && \
       VF_abs(&(p)->mid_reader) == (cur) && \
       VF_abs(&(p)->raw_reader) == VF_RN(VF_RN(cur)) && \
       VF_abs(&(p)->skip_reader) == VF_NP(VF_NP(cur)))
