/*
 * Bidirectional functions: memory, termination, frame.
 *
 * VF_buf is a buffer of any number VF_N of states.  VF_J is an arbitrary
 * offset: what is proved of the state at VF_J holds for every state, and what
 * the callers establish for VF_J is established for every state.
 */
#include "macros.h"
#include "each.h"
#define VF_MAXN ((size_t)1 << 40)
size_t VF_N, VF_J;
uint_least32_t *VF_buf;
#define VF_WORDS ((uint_least32_t *)VF_buf)

static inline int_least16_t get_state(enum state_type t, uint_least32_t input);
static inline void set_state(enum state_type t, int_least16_t value, uint_least32_t *output);

#ifndef VF_OWN_GHOST
typedef struct { int none; } VF_ghost_t;
VF_ghost_t G;
#define VF_ghost_eq(g) (G.none == (g)->none)
#define VF_havoc_ghost() ((void)0)
#endif

/* the bracket offset of every state is one of an element of bidi_bracket[] */
#define VF_BRACKETS 128
#define VF_word_ok(w) (get_state(STATE_BRACKET_OFF, (w)) >= 0 && get_state(STATE_BRACKET_OFF, (w)) < VF_BRACKETS)

/* the state at VF_J, and what is left of it without the mark */
#define VF_WJ (VF_buf[VF_J < VF_N ? VF_J : 0])
static inline uint_least32_t
VF_plain(uint_least32_t w)
{
	set_state(STATE_VISITED, 0, &w);
	return w;
}

#if defined(T_LINE) || defined(T_REORDER)
/* functions on a line: what they write, how large it is, what they read */
size_t VF_outlen, VF_linelen;
void *VF_out;
const uint_least32_t *VF_line, *VF_linedata;
static inline bool
VF_ghost_inv(void)
{
	return 1;
}
static inline void
VF_havoc_heap(void)
{
	__CPROVER_havoc_object(VF_out);
}
#elif !defined(VF_OWN_INV)
static inline bool
VF_ghost_inv(void)
{
#ifdef T_PREPROCESS
	return 1;
#else
	return VF_J >= VF_N || VF_word_ok(VF_buf[VF_J]);
#endif
}
static inline void
VF_havoc_heap(void)
{
	__CPROVER_havoc_object(VF_buf);
}
#endif

#ifdef T_TEXT
/* functions that read a text: VF_buf is the destination, of VF_N states */
#include "text_fn.h"
#ifndef VF_OWN_GHOST
void VF_on_advance(const HERODOTUS_READER *r, size_t from, size_t to, uint_least32_t cp) { (void)r; (void)from; (void)to; (void)cp; }
void VF_on_peek(size_t at, uint_least32_t cp) { (void)at; (void)cp; }
#endif
#endif

/* lookups (contracts: table-bidi, table-bracket, bidi-words) */
unsigned char __CPROVER_uninterpreted_bprop(uint_least32_t);
unsigned char __CPROVER_uninterpreted_bracket(uint_least32_t);
static inline uint_least8_t
VF_prop(uint_least32_t cp)
{
	uint_least8_t p = __CPROVER_uninterpreted_bprop(cp);
	__CPROVER_assume(p < NUM_BIDI_PROPS);
	return p;
}
static inline uint_least8_t
VF_bracket_off(uint_least32_t cp)
{
	uint_least8_t p = __CPROVER_uninterpreted_bracket(cp);
	__CPROVER_assume(p < VF_BRACKETS);
	return p;
}

