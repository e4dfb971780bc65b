/* Calls with up to 300 arguments. */
#define VT_MAXOBJ 2000
#define VT_SRCMAX 16384
#include "vt_dl.h"
static const unsigned sizes[] = {5, 16, 127, 128, 129, 254, 255, 256, 257, 300};
static void values(unsigned lo, unsigned hi, unsigned k) { for (unsigned i = lo; i < hi; i++) { if (i == k) P(" (in0)"); else { PC(' '); PU(i); } } }
static void names(unsigned n) { for (unsigned i = 0; i < n; i++) { P(" a"); PU(i); } }
/* @q configs=default,inference tconfigs=default,inference,no-optimize,portable max=200 reach=end,toomany | functions of 5 to 300 parameters, and variadic functions of 0, 1 or all but 2 parameters, called with 5 to 300 arguments directly or through apply; one argument arbitrary */
void h_many(void) {
	unsigned n = sizes[vt_pick(10)], variadic = vt_pick(2), way = vt_pick(3), where = vt_pick(3);
	unsigned k = where == 0 ? 1 : where == 1 ? n / 2 : n - 1, m = n, direct;
	if (variadic) { m = vt_pick(3); m = m == 2 ? n - 2 : m; }
	vt_open(1);
	vt_open_out();
	vt_inputs[0] = vI((long) vt_draw());
	direct = way == 0 ? n : way == 1 ? 0 : n / 2;
	vt_n = 0;
	P("((__defun f ("); names(m);
	if (variadic) {
		P(" &rest r) (__var l (__length r)) ");
		if (k < m) { P("(out a"); PU(k); P(") "); }
		else { P("(__var i "); PU(k - m); P(") (__while (__< 0 i) (__setq r (__cdr r)) (__setq i (__- i 1))) (out (__car r)) "); }
		P("l)");
	}
	else { P(") (out a"); PU(k); P(") (__- a3 a0))"); }
	if (way == 0) { P("(f"); values(0, n, k); P("))"); }
	else { P("(__apply f"); values(0, direct, k); P(" (__list"); values(direct, n, k); P(")))"); }
	dl_error_t e = vt_compile();
	if (direct > 255 || m > 255) {
		VT_ASSERT(e, "more than 255 arguments are rejected");
		vt_n = 0;
		VT_ASSERT(vt_same(vt_value_of("((__defun ok (x) (__+ x 1)) (ok 4))"), vI(5)), "compiler and VM work afterwards");
		VT_REACH("toomany");
		return;
	}
	VT_ASSERT(!e, "the call compiles");
	VT_ASSERT(!duckVM_execute(&VM, vt_bc, vt_bcn), "the call succeeds");
	vt_free_bc();
	VT_ASSERT(vt_same(vt_top(&VM), vI(variadic ? n - m : 3)), "the value of the body is returned");
	VT_ASSERT(vt_nout == 1 && vt_same(vt_out[0], vt_inputs[0]), "an argument arrives at its parameter");
	VT_REACH("end");
}
