/* What a name at the head of an expression means: the innermost, latest definition. */
#define VT_OUTS 16
#include "vt_dl.h"
static dl_error_t cb_hf(duckVM_t *vm) {
	duckVM_object_t o;
	dl_error_t e = dl_array_getTop(&vm->stack, &o);
	if (e) return e;
	e = duckVM_pop(vm);
	if (e) return e;
	o.value.integer = (dl_ptrdiff_t) ((unsigned long) o.value.integer + 200);
	return duckVM_object_push(vm, &o);
}
static const char *const names[] = {"fn", "hf", "__not", "not", "f"};
static const char *name;
static unsigned long use;
static long meaning;                /* what the name adds; -1: not; -2: a keyword's negation */
static V want[16];
static int nwant;
static void define(unsigned long kind, int k) {            /* nothing, a function, a macro */
	if (kind == 1) { P("(__defun "); P(name); P(" (x) (__+ x "); PU(k); P(")) "); meaning = k; }
	if (kind == 2) { P("(__defmacro "); P(name); P(" (x) (__list (__quote __+) x "); PU(k + 10); P(")) "); meaning = k + 10; }
}
static void uses(void) {
	static const char *const before[] = {"(out (", "(out (__funcall (__lambda () (", "(out ((__var i 0) (__while (__< i 1) (__setq i (__+ i 1)) (__setq r ("};
	static const char *const after[] = {" (in0)))", " (in0)))))", " (in0)))) r))"};
	P(before[use]); P(name); P(after[use]); P(" ");
	want[nwant++] = meaning == -1 ? vI(!vt_inputs[0].i) : vI((long) ((unsigned long) vt_inputs[0].i + (unsigned long) meaning));
}
static void names_(void) {
	vt_open(1);
	vt_open_out();
	VT_ASSERT(!vt_link("hf", cb_hf, "(I)"), "callback links");
	vt_inputs[0] = vI((long) vt_draw());
	unsigned long n = vt_pick(5), d[4];
	name = names[n]; use = vt_pick(3);
	for (int i = 0; i < 4; i++) d[i] = vt_pick(3);
	nwant = 0;
	vt_n = 0;
	VT_ASSERT(!vt_do("((__global fn (__lambda (x) (__+ x 100))) (__global r 0))"), "defined");
	VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
	vt_n = 0;
	long at0, at1;
	meaning = n == 0 ? 100 : n == 1 ? 200 : -1;
	P("(");
	if (n == 4) { P("(__global f (__lambda (x) (__+ x 300))) "); meaning = 300; }
	uses();
	define(d[0], 1); uses();
	define(d[1], 2); uses();
	at0 = meaning;
	P("("); define(d[2], 3); uses();
	at1 = meaning;
	P("(__funcall (__lambda () "); define(d[3], 4); uses(); P("1)) ");
	meaning = at1; uses();
	P("1) ");
	meaning = at0; uses();
	P("1)");
	VT_ASSERT(!vt_run(), "the program executes");
	VT_ASSERT(vt_nout == nwant, "every use is executed");
	for (int i = 0; i < nwant; i++) VT_ASSERT(vt_same(vt_out[i], want[i]), "a name means its innermost, latest definition");
	VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
	vt_nout = 0;
	vt_n = 0;
	P("(out ("); P(name); P(" (in0)))");
	meaning = n == 0 ? 100 : n == 1 ? 200 : n == 4 ? 300 : -1;
	VT_ASSERT(!vt_run(), "a later program executes");
	VT_ASSERT(vt_nout == 1 && vt_same(vt_out[0], meaning == -1 ? vI(!vt_inputs[0].i) : vI((long) ((unsigned long) vt_inputs[0].i + (unsigned long) meaning))), "definitions do not outlive their scope");
	vt_close();
	VT_REACH("end");
}
/* @q configs=default,no-optimize max=100 | a global function, a host function, a keyword in either spelling and a function of the same program, redefined 0 to 4 times as function or macro in the same or inner scopes and functions; each use directly, inside a function or a loop; arbitrary Integers */
void h_names(void) { names_(); }
