#ifndef VF_MACROS_H
#define VF_MACROS_H
#ifndef bool
#define bool _Bool
#define true 1
#define false 0
#endif
#ifndef NULL
#define NULL ((void *)0)
#endif
#ifndef UINT32_C
#define UINT32_C(x) x##U
#endif
#ifndef INT32_C
#define INT32_C(x) x
#endif
#ifndef SIZE_MAX
#define SIZE_MAX (18446744073709551615UL)
#endif
void *malloc(size_t);
/* obligations of the specification; rounds that only prune candidate
 * invariants leave them out, the deciding round has all of them */
/* the obligations of a program may be split among runs of the verifier: run
 * VF_ONLY has those of the body of loop VF_ONLY (not of the loops within), run
 * -1 those outside of all loops.  vf_in says if the code at hand is of the run;
 * bodies of loops that have no obligation of the run and do not lead to one are
 * left out (VF_DROP_n), and what follows loop n in run n (VF_CUT_n). */
#ifndef VF_ONLY
#define VF_ONLY (-2)
#define VF_ON 1
_Bool vf_in;
#else
_Bool vf_in = VF_ONLY < 0;
#define VF_ON vf_in
#endif
#define VF_ASSERT(c, d) __CPROVER_assert(!VF_ON || (c), d)
#ifdef VF_PRUNE
#define VF_CHECK(c, d) ((void)0)
#define VF_VARIANT(c, d)
#define VF_REACH(d)
#else
#define VF_CHECK(c, d) VF_ASSERT(c, d)
#define VF_VARIANT(c, d) VF_ASSERT(c, d);
#define VF_REACH(d) __CPROVER_assert(!VF_ON, "REACH " d)
#endif
/* p points at one of the elements 0..n of the array which is the object a */
#define VF_elem(p, a, n) (__CPROVER_POINTER_OFFSET(p) % sizeof(*(p)) == 0 && (size_t)__CPROVER_POINTER_OFFSET(p) <= (n) * sizeof(*(p)))
#define VF_BASE(c, d) VF_ASSERT(c, d);
#define VF_ASSUME(c, d) __CPROVER_assume(c);
#define VF_STEP(c, d) VF_ASSERT(c, d);
#define VF_GHOST_BASE(l) VF_CHECK(VF_ghost_inv(), "ghost invariant on entry of loop " l);
#define VF_GHOST_ASSUME(l) __CPROVER_assume(VF_ghost_inv());
#define VF_GHOST_STEP(l) VF_CHECK(VF_ghost_inv(), "ghost invariant preserved by loop " l);
#endif
