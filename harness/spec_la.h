/*
 * Lookahead over the elements that are not skipped:
 *   VF_NS(o)  class of the first element at or behind o (NPROPS if none)
 *   VF_NP(o)  offset behind it (VF_END if none)
 */
VF_FUN(unsigned char, VF_nss);
VF_FUN(size_t, VF_nps);
#define VF_NS(o) (VF_nss[o])
#define VF_NP(o) (VF_nps[o])

#define VF_skipdef(o) ((o) >= VF_END ? VF_NS(o) == NPROPS && VF_NP(o) == VF_END \
	: VF_NP(o) > (o) && VF_NP(o) <= VF_END && VF_NS(o) <= NPROPS && (IS_SKIP(VF_prop(VF_cp(o))) \
		? VF_NS(o) == VF_NS((o) + VF_cl(o)) && VF_NP(o) == VF_NP((o) + VF_cl(o)) \
		: VF_NS(o) == VF_prop(VF_cp(o)) && VF_NP(o) == (o) + VF_cl(o)))
#define unfold_skip(o) __CPROVER_assume(VF_skipdef(o))
