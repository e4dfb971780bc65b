/* Chains of captures: a variable used several functions below the one that declares it. */
#define VT_OUTS 64
#include "vt_dl.h"
static dl_error_t cb_gc(duckVM_t *vm) { dl_error_t e = duckVM_garbageCollect(vm); return e ? e : duckVM_pushNil(vm); }
static V want[64];
static int nwant;
static V x;
static void use(unsigned long u) {
	if (u & 1) { P("(out x) "); want[nwant++] = x; }
	if (u & 2) { P("(__setq x (in1)) "); x = vt_inputs[1]; P("(out (g)) "); want[nwant++] = x; }
	if (u & 4) { P("(out (g)) (__setq s (__lambda () (__setq x (in2)))) (s) (out x) "); want[nwant++] = x; x = vt_inputs[2]; want[nwant++] = x; }
}
/* depth functions inside each other below the one with x; the innermost uses it and so does the one at mid, if any.  returned: each level returns the next one, which is called after it has ended. */
static void chain(int depth, int mid, unsigned long u, unsigned long m, int returned, int siblings) {
	vt_open(3);
	vt_open_out();
	VT_ASSERT(!vt_link("gc", cb_gc, "()"), "callback links");
	for (int i = 0; i < 3; i++) vt_inputs[i] = vI((long) vt_draw());
	nwant = 0; x = vt_inputs[0]; vt_n = 0;
	P("((__global g 0) (__global s 0) (__var mk (__lambda (x) (__setq g (__lambda () x)) ");
	for (int i = 1; i <= depth; i++) {
		if (siblings) { P("(__var y"); PU(i); P(" "); PU(i); P(") "); }
		P(returned ? "(__lambda () " : "(__funcall (__lambda () ");
		if (i == mid) use(m);
		if (siblings && i > 1) { P("(__setq y"); PU(i - 1); P(" (__+ 10 y"); PU(i - 1); P(")) "); }
	}
	P("(gc) ");
	use(u);
	if (siblings) for (int i = 1; i <= depth; i++) { P("(out y"); PU(i); P(") "); want[nwant++] = vI(i < depth ? 10 + i : i); }
	P("1");
	for (int i = 1; i <= depth; i++) P(returned ? ")" : "))");
	P(")) ");
	if (returned) for (int i = 0; i < depth; i++) P("(__funcall ");
	P("(__funcall mk (in0))");
	if (returned) for (int i = 0; i < depth; i++) P(")");
	P(" (gc) (out (g)))");
	want[nwant++] = x;
	VT_ASSERT(!vt_run(), "the program executes");
	VT_ASSERT(vt_nout == nwant, "as many outputs");
	for (int i = 0; i < nwant; i++) VT_ASSERT(vt_same(vt_out[i], want[i]), "the captured variable has the value last assigned");
	VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
	VT_ASSERT(vt_same(vt_value_of("(g)"), x), "a later program sees it too");
	vt_close();
	VT_REACH("end");
}
/* @q configs=default tconfigs=default,inference,no-optimize,portable max=150 reach=end | a variable read, assigned and captured again 1 to 7 functions below its own, which are running or have ended, optionally used by one of the functions between, each with a variable of its own; arbitrary Integers */
void h_chain(void) {
	int depth = 1 + (int) vt_pick(7), returned = (int) vt_pick(2), siblings = (int) vt_pick(2);
	unsigned long u = 1 + vt_pick(7), mid = vt_pick(2);
	int where = 0;
	unsigned long m = 0;
	if (mid && depth > 1) { where = 1 + (int) vt_pick((unsigned long) depth - 1); m = 1 + vt_pick(2); }
	chain(depth, where, u, m, returned, siblings);
}
