/* Gives the inline functions of fpr.h external names; nothing else. */
#include "inner.h"
fpr w_add(fpr x, fpr y) { return fpr_add(x, y); }
fpr w_sub(fpr x, fpr y) { return fpr_sub(x, y); }
fpr w_mul(fpr x, fpr y) { return fpr_mul(x, y); }
fpr w_sqr(fpr x) { return fpr_sqr(x); }
fpr w_div(fpr x, fpr y) { return fpr_div(x, y); }
fpr w_inv(fpr x) { return fpr_inv(x); }
fpr w_sqrt(fpr x) { return fpr_sqrt(x); }
fpr w_neg(fpr x) { return fpr_neg(x); }
fpr w_half(fpr x) { return fpr_half(x); }
fpr w_double(fpr x) { return fpr_double(x); }
fpr w_of(int64_t i) { return fpr_of(i); }
fpr w_scaled(int64_t i, int sc) { return fpr_scaled(i, sc); }
int64_t w_rint(fpr x) { return fpr_rint(x); }
int64_t w_floor(fpr x) { return fpr_floor(x); }
int64_t w_trunc(fpr x) { return fpr_trunc(x); }
int w_lt(fpr x, fpr y) { return fpr_lt(x, y); }
uint64_t w_expm(fpr x, fpr ccs) { return fpr_expm_p63(x, ccs); }
fpr w_gm(size_t i) { return fpr_gm_tab[i]; }
fpr w_p2(size_t i) { return fpr_p2_tab[i]; }
fpr w_inv_sigma(size_t i) { return fpr_inv_sigma[i]; }
fpr w_sigma_min(size_t i) { return fpr_sigma_min[i]; }
fpr w_const(int i)
{
	switch (i) {
	case 0: return fpr_q;
	case 1: return fpr_inverse_of_q;
	case 2: return fpr_inv_2sqrsigma0;
	case 3: return fpr_log2;
	case 4: return fpr_inv_log2;
	case 5: return fpr_bnorm_max;
	case 6: return fpr_zero;
	case 7: return fpr_one;
	case 8: return fpr_two;
	case 9: return fpr_onehalf;
	case 10: return fpr_invsqrt2;
	case 11: return fpr_invsqrt8;
	case 12: return fpr_ptwo31;
	case 13: return fpr_ptwo31m1;
	case 14: return fpr_mtwo31m1;
	case 15: return fpr_ptwo63m1;
	case 16: return fpr_mtwo63m1;
	default: return fpr_ptwo63;
	}
}
