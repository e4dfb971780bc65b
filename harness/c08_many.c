/* Many globals. */
#define VT_MAXOBJ 3000
#define VT_SRCMAX 16384
#include "vt_dl.h"
/* @q configs=default tconfigs=default,inference,no-optimize max=100 | 300 globals in use, any of 8 assigned an arbitrary Integer by a program, a function or the host: it alone changes */
void h_crowd(void) {
	static const int ks[] = {0, 1, 2, 127, 128, 255, 256, 299};
	vt_open(1);
	vt_inputs[0] = vI((long) vt_draw());
	for (int part = 0; part < 6; part++) {
		vt_n = 0;
		P("(");
		for (int i = part * 50; i < part * 50 + 50; i++) { P("(__global n"); PU(i); PC(' '); PU(1000 + i); P(") "); }
		P("0)");
		VT_ASSERT(vt_same(vt_value_of(0), vI(0)), "globals are defined");
	}
	int k = ks[vt_pick(8)];
	unsigned long way = vt_pick(4);
	char nm[8]; int n = 0;
	vt_n = 0; PC('n'); PU(k); n = vt_n; memcpy(nm, vt_src, n);
	vt_n = 0;
	if (way == 0) { P("(__setq n"); PU(k); P(" (in0))"); }
	else if (way == 1) { P("(__global n"); PU(k); P(" (in0))"); }
	else { P("(__funcall (__lambda () (__setq n"); PU(k); P(" (in0))))"); }
	if (way < 3) { VT_ASSERT(vt_same(vt_value_of(0), vt_inputs[0]), "the global is assigned"); }
	else {
		VT_ASSERT(!vt_push(&VM, vt_inputs[0]), "the host pushes a value");
		VT_ASSERT(!duckVM_setGlobal(&VM, duckLisp_symbol_nameToValue(&DLC, (dl_uint8_t *) nm, n)), "the host sets a global");
		VT_ASSERT(!duckVM_pop(&VM), "the host pops");
	}
	for (int i = 0; i < 300; i++) {
		vt_n = 0; PC('n'); PU(i); n = vt_n; memcpy(nm, vt_src, n);
		VT_ASSERT(!duckVM_pushGlobal(&VM, duckLisp_symbol_nameToValue(&DLC, (dl_uint8_t *) nm, n)), "the host reads a global");
		VT_ASSERT(vt_same(vt_top(&VM), i == k ? vt_inputs[0] : vI(1000 + i)), "each global keeps its own value");
		VT_ASSERT(!duckVM_pop(&VM), "the host pops");
	}
	vt_n = 0; PC('n'); PU(k);
	VT_ASSERT(vt_same(vt_value_of(0), vt_inputs[0]), "a program reads the global");
	VT_REACH("end");
}
