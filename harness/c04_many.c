/* Functions that capture many variables, over several levels of nesting. */
#define VT_MAXOBJ 3000
#define VT_SRCMAX 16384
#define VT_OUTS 64
#include "vt_dl.h"
static void names(const char *pre, unsigned lo, unsigned hi) { for (unsigned i = lo; i < hi; i++) { P(pre); PU(i); P(") "); } }
/* n variables, all captured by a function at the given depth (every variable written out), which assigns one; the levels
   between capture none, the last or the middle variable themselves. */
static void captures(unsigned n, unsigned depth, unsigned between, unsigned k, unsigned j, int wide) {
	vt_open(2);
	vt_open_out();
	vt_inputs[0] = vI((long) vt_draw()); vt_inputs[1] = vI((long) vt_draw());
	vt_n = 0;
	P("(");
	for (unsigned i = 0; i < n; i++) { P("(__var v"); PU(i); PC(' '); if (i == k) P("(in0)"); else PU(1000 + i); P(") "); }
	for (unsigned d = 0; d < depth; d++) {
		if (between && d) { P("(__+ 1 v"); PU(between == 1 ? n - 1 : n / 2); P(") "); }
		P("((__defun f () ");
		}
	if (wide) { /* every variable is captured, one is recorded */
		P("(__var s 0) ");
		for (unsigned i = 0; i < n; i++) if (i != k) { P("(__setq s (__+ s v"); PU(i); P(")) "); }
		P("(out s) (out v"); PU(k); P(") ");
	}
	else names("(out v", 0, n);
	P("(__setq v"); PU(j); P(" (in1)) v"); PU(k); P(") ");
	for (unsigned d = 0; d < depth; d++) P(d + 1 < depth ? "(f)) ) " : "(out (f))) ");
	P("v"); PU(j); P(")");
	VT_ASSERT(!vt_compile(), "the program compiles");
	VT_ASSERT(!duckVM_execute(&VM, vt_bc, vt_bcn), "the program executes");
	vt_free_bc();
	long sum = 0;
	for (unsigned i = 0; i < n; i++) if (i != k) sum += 1000 + i;
	if (wide) VT_ASSERT(vt_nout == 3 && vt_same(vt_out[0], vI(sum)) && vt_same(vt_out[1], vt_inputs[0]), "captured variables have their values");
	else {
		VT_ASSERT(vt_nout == (int) n + 1, "the function runs once");
		for (unsigned i = 0; i < n; i++) VT_ASSERT(vt_same(vt_out[i], i == k ? vt_inputs[0] : vI(1000 + i)), "captured variables have their values");
	}
	VT_ASSERT(vt_same(vt_out[vt_nout - 1], k == j ? vt_inputs[1] : vt_inputs[0]), "the function returns the captured variable");
	VT_ASSERT(vt_same(vt_top(&VM), vt_inputs[1]), "an assignment to a captured variable is seen in its scope");
	VT_REACH("end");
}
/* @q configs=default,inference tconfigs=default,inference,no-optimize,portable max=100 | 1 to 12 and 20 variables captured by a function 1 to 3 levels deep, the levels between capturing none, the last or the middle one; an arbitrary variable holds an arbitrary Integer and an arbitrary one is assigned */
void h_nested(void) {
	unsigned n = 1 + vt_pick(13), depth = 1 + vt_pick(3), between = vt_pick(3);
	if (n == 13) n = 20;
	unsigned k = vt_pick(n), j = vt_pick(3);
	captures(n, depth, between, k, j == 0 ? k : j == 1 ? 0 : n - 1, 0);
}
/* @q configs=default tconfigs=default,inference,no-optimize max=200 | 127 to 300 variables captured by a function 1 or 2 levels deep */
void h_wide(void) {
	static const unsigned sizes[] = {127, 128, 129, 254, 255, 256, 257, 300};
	unsigned n = sizes[vt_pick(8)], depth = 1 + vt_pick(2), k = vt_pick(3), j = vt_pick(3);
	captures(n, depth, 1, k == 0 ? 0 : k == 1 ? n / 2 : n - 1, j == 0 ? 1 : j == 1 ? n - 2 : n - 1, 1);
}

/* A function that captures n variables outlives their scope (or its iteration, or the function they belong to), other
   variables take their places, and the function reads and assigns them. */
static void outlives(unsigned n, unsigned k, unsigned j, unsigned how, int wide) {
	static const char *const open[] = {"(", "(__funcall (__lambda () ", "((__var i 0) (__while (__< i 1) (__setq i (__+ i 1)) ", "("};
	static const char *const shut[] = {"0) ", "0)) ", ")) ", "0)"};
	vt_open(2);
	vt_open_out();
	vt_inputs[0] = vI((long) vt_draw()); vt_inputs[1] = vI((long) vt_draw());
	vt_n = 0;
	if (how == 3) VT_ASSERT(!vt_do("(__global g 0)") && !duckVM_popAll(&VM), "defined");
	else P("((__global g 0) ");
	P(open[how]);
	for (unsigned i = 0; i < n; i++) { P("(__var v"); PU(i); PC(' '); if (i == k) P("(in0)"); else PU(1000 + i); P(") "); }
	P("(__setq g (__lambda () ");
	if (wide) {
		P("(__var s 0) ");
		for (unsigned i = 0; i < n; i++) if (i != k && i != j) { P("(__setq s (__+ s v"); PU(i); P(")) "); }
		P("(out s) (out v"); PU(k); P(") (out v"); PU(j); P(") ");
	}
	else names("(out v", 0, n);
	P("(__setq v"); PU(j); P(" (in1)) v"); PU(k); P(")) "); P(shut[how]);
	if (how == 3) { VT_ASSERT(!vt_run(), "the program executes"); VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied"); P("("); }
	P("(");
	for (unsigned i = 0; i < n + 2; i++) { P("(__var w"); PU(i); P(" 7) "); }
	P("(out (__funcall g)) (out w"); PU(n / 2); P(") 0) (out (__funcall g)) 0)");
	VT_ASSERT(!vt_compile(), "the program compiles");
	VT_ASSERT(!duckVM_execute(&VM, vt_bc, vt_bcn), "the program executes");
	vt_free_bc();
	long sum = 0;
	int at = 0;
	for (unsigned i = 0; i < n; i++) if (i != k && i != j) sum += 1000 + i;
	for (int call = 0; call < 2; call++) {
		V vk = k == j && call ? vt_inputs[1] : vt_inputs[0];
		if (wide) {
			VT_ASSERT(vt_same(vt_out[at], vI(sum)), "captured variables keep their values");
			VT_ASSERT(vt_same(vt_out[at + 1], vk), "captured variables keep their values");
			VT_ASSERT(vt_same(vt_out[at + 2], k == j ? vk : call ? vt_inputs[1] : vI(1000 + j)), "captured variables keep their values");
			at += 3;
		}
		else for (unsigned i = 0; i < n; i++) {
			VT_ASSERT(vt_same(vt_out[at], i == k ? vk : i == j && call ? vt_inputs[1] : vI(1000 + i)), "captured variables keep their values");
			at++;
		}
		VT_ASSERT(vt_same(vt_out[at], k == j ? vt_inputs[1] : vt_inputs[0]), "the function returns the captured variable");
		at++;
		if (!call) { VT_ASSERT(vt_same(vt_out[at], vI(7)), "other variables are left alone"); at++; }
	}
	VT_ASSERT(vt_nout == at, "the function runs twice");
	VT_REACH("end");
}
/* @q configs=default,inference tconfigs=default,inference,no-optimize,portable max=100 | 1 to 12 and 20 variables captured by a function that outlives their scope, loop iteration, function or program; an arbitrary variable holds an arbitrary Integer and an arbitrary one is assigned */
void h_outlives(void) {
	unsigned n = 1 + vt_pick(13), how = vt_pick(4);
	if (n == 13) n = 20;
	unsigned k = vt_pick(n), j = vt_pick(3);
	outlives(n, k, j == 0 ? k : j == 1 ? 0 : n - 1, how, 0);
}
#ifndef WIDE
#define WIDE 2
#endif
/* @q configs=default tconfigs=default,inference,no-optimize max=200 tdefs=WIDE=7 | 129 and 256 (thorough: 127 to 257) variables captured by such a function */
void h_outlives_wide(void) {
	static const unsigned sizes[] = {129, 256, 127, 128, 254, 255, 257};
	unsigned n = sizes[vt_pick(WIDE)], how = vt_pick(4), j = vt_pick(2);
	outlives(n, n - 1, j ? n - 1 : 0, how, 1);
}
