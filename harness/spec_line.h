/* UAX #14 for the proof harness */
#include "../spec/uax14.h"
typedef struct lb_hist HIST;
typedef struct { _Bool nu; } LA;
#define h_init lb_init
#define h_step lb_step
#define h_eq lb_eq
#define h_wf lb_wf
#define h_isb(h, c, la) lb_isb(h, c, (la).nu)
#define la_eq(a, b) ((a).nu == (b).nu)

/* VF_nua(o): the first element at or behind o is NU, combining marks skipped */
VF_FUN(unsigned char, VF_nuas);
#define VF_nua(o) ((_Bool)(VF_nuas[o] & 1))
#define h_unfold(o) __CPROVER_assume((o) >= VF_END ? !VF_nua(o) : VF_nua(o) == (lb_is_cm(VF_prop(VF_cp(o))) ? VF_nua((o) + VF_cl(o)) : VF_prop(VF_cp(o)) == LBP(NU)))
#define la_at(o) ((LA){ VF_nua(VF_RN(o)) })

static void
h_norm(HIST *h)
{
	h->hl = h->hl ? 1 : 0;
	h->ri = h->ri ? 1 : 0;
	h->num = h->num ? 1 : 0;
	h->numcl = h->numcl ? 1 : 0;
}

static void
la_norm(LA *la)
{
	la->nu = la->nu ? 1 : 0;
}
