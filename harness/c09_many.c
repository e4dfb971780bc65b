/* Many generated names. */
#define VT_MAXOBJ 3000
#define VT_SRCMAX 16384
#include "vt_dl.h"
/* @q configs=default max=100 | 300 names generated in one or in 30 compilations: any of 6 of them is different from all others, and a variable with that name from all others */
void h_many_names(void) {
	static const int at[] = {0, 1, 15, 16, 100, 255};
	int k = at[vt_pick(6)];
	unsigned long parts = vt_pick(2) ? 30 : 1;
	vt_open(0);
	VT_ASSERT(vt_same(vt_value_of("(__comptime ((__global n 0) (__global same 0) (__global pick 0) (__global s 0) 1))"), vI(1)), "counters are defined");
	for (unsigned long p = 0; p < parts; p++) {
		vt_n = 0;
		P("(__comptime ((__var i 0) (__while (__< i "); PU(300 / parts); P(") (__setq s (gensym)) (__if (__= n "); PU(k);
		P(") (__setq pick s) (__if (__= s pick) (__setq same 1) 0)) (__setq n (__+ n 1)) (__setq i (__+ i 1))) i))");
		VT_ASSERT(vt_same(vt_value_of(0), vI(300 / parts)), "names are generated");
	}
	VT_ASSERT(vt_same(vt_value_of("(__comptime (__+ n same))"), vI(300)), "generated names are unique");
	VT_REACH("end");
}
static dl_error_t cb_nameless(duckVM_t *vm) { return duckVM_pushCompressedSymbol(vm, (dl_size_t) vt_inputs[2].i); }
static dl_error_t cb_named(duckVM_t *vm) { return duckVM_pushSymbol(vm, (dl_size_t) vt_inputs[2].i, (dl_uint8_t *) "in0", 3); }
/* @q configs=default,inference reach=refused,named | symbols made by the host with an arbitrary number, with or without a name, as (part of) the result of compile-time code and macros in 6 places: the name counts, without one the program is refused */
void h_host_symbol(void) {
	static const char *const a[] = {"((__defmacro m () (__list ", "((__defmacro m () (__list (__quote __+) (__list ", "((__defmacro m () (__list (__quote __if) true (__list ", "((__defmacro m (x) (__list (__quote __+) x (__list ", "((__defmacro m () (__cons ", "((__defmacro k () 1) (__defmacro m () (__list (__quote __noscope) (__list "};
	static const char *const b[] = {")) (m))", ") 0)) (m))", ") 0)) (m))", "))) (m 0))", " ())) (m))", "))) (m))"};
	vt_open(2);
	VT_ASSERT(!vt_link("nameless", cb_nameless, "()"), "callback links");
	VT_ASSERT(!vt_link("named", cb_named, "()"), "callback links");
	vt_inputs[0] = vI((long) vt_draw()); vt_inputs[1] = vI((long) vt_draw()); vt_inputs[2] = vI((long) vt_draw());
	unsigned long k = vt_pick(6);
	int named = (int) vt_pick(2);
	P(a[k]); P(named ? "(named)" : "(nameless)"); P(b[k]);
	if (named) {
		VT_ASSERT(vt_same(vt_value_of(0), vt_inputs[0]), "the name of the symbol counts");
		VT_REACH("named");
	}
	else {
		VT_ASSERT(vt_run(), "a symbol without a name is refused");
		VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
		VT_REACH("refused");
	}
	VT_ASSERT(vt_same(vt_value_of("(__+ (in0) (__comptime (__+ 1 2)))"), vI(vt_inputs[0].i + 3)), "compiler and VM are usable");
}
