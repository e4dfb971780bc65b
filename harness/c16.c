/* Allocation failure: any single failing allocation is reported as an error and harms nothing. */
#include "vt_dl.h"
static V one, two;
static void setup(int globals) {
	vt_open(2);
	vt_open_out();
	one = vt_inputs[0] = vI((long) vt_draw()); two = vt_inputs[1] = vI((long) vt_draw());
	if (globals) {
		VT_ASSERT(!vt_do("((__global keep (__list 1 2 3)) (__global count (__lambda (n) ((__var i 0) (__while (__< i n) (__setq i (__+ i 1))) i))))"), "a program before the failure");
		VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
	}
}
/* i: -1: the value is the integer v; -2: in0; -3: in0 + 1; -4: in0 + 2; -5: nothing claimed; -6: true. */
static const struct { const char *s; int k; long v; } progs[] = {
	{"(__+ (in0) 1)", -3},
	{"(__car (__cdr (__list (in0) 300 70000 1.5 true ())))", -1, 300},
	{"((__var s \"text\") (__length (__concatenate s (__make-string (__list 97 98)))))", -1, 6},
	{"((__var a (in0)) (__defun f (x &rest r) (__+ a x)) (f 1 2 3))", -3},
	{"((__var n 3) (__while (__< 0 n) (__setq n (__- n 1))) (__if n 1 2))", -1, 2},
	{"((__global g1 (__vector 1 2)) (__set-vector-element g1 0 (in0)) (__get-vector-element g1 0))", -2},
	{"(__car (__cdr (__cdr (__quote (a (b \"c\") 3)))))", -1, 3},
	{"((__defmacro m (x) (__list (__quote __+) x 1)) (m (in0)))", -3},
	{"(__comptime ((__var x (__list 7 2)) (__car x)))", -1, 7},
	{"((__var c (__make-instance (__make-type) 1 (__lambda (x) x))) (__funcall c (in0)))", -2},
	{"(__car (__cdr (__apply (__lambda (a b) (__cons a (__cons b ()))) 1 (__list (in0)))))", -2},
	{"((__var x (in0)) (__var f (__lambda () (__setq x (__+ x 1)) (__lambda () (__+ x 1)))) (__funcall (__funcall f)))", -4},
	{"((__var s (__substring \"abcdef\" 1 4)) (__length s))", -1, 3},
	{"((__defun f (n) (__if (__= n 0) 0 (__+ 1 (self (__- n 1))))) (f 5))", -1, 5},
	{"((__var q (__quote sym)) (__length (__symbol-string q)))", -1, 3},
	{"(__unless (__not true) (__noscope (__var z 1)) (out 4) 9)", -1, 9},
	{"((__defun g (n) (__if (__= n 0) (__list (in0) (in1)) (self (__- n 1)))) (__car (g 9)))", -2},
	{"((__var v (__make-vector 3 (in0))) (__defun h (&rest r) (__lambda () (__cons (__car r) v))) (__car (__funcall (h 1 2))))", -1, 1},
};
#define NPROG (sizeof progs / sizeof *progs)
static V expected(unsigned long p) {
	switch (progs[p].k) {
	case -1: return vI(progs[p].v);
	case -2: return one;
	case -3: return vI(one.i + 1);
	default: return vI(one.i + 2);
	}
}
/* From here the k-th allocation fails, for an arbitrary k. */
static void fail_from_here(void) { long k = (long) vt_draw(); VT_ASSUME(k >= 0 && k < 65536); vt_failed = 0; vt_fail_at = vt_allocs + k; }
/* Paths with more than that many allocations never see the failure. */
static void failed_or_stop(void) { if (!vt_failed) { vt_fail_at = -1; VT_REACH("none"); VT_ASSUME(0); } }
static void works(int globals) {
	VT_ASSERT(!duckVM_softReset(&VM), "the VM can be reset");
	VT_ASSERT(duckVM_stackLength(&VM) == 0, "the stack is empty after a reset");
	if (globals) VT_ASSERT(vt_same(vt_value_of("((__var a (count 3)) (__var f (__lambda (z) (__+ a z))) (__funcall f (__car (__cdr keep))))"), vI(5)), "a later program is correct");
	else VT_ASSERT(vt_same(vt_value_of("((__var a 3) (__global g9 (__lambda (z) (__+ a z))) (g9 (__car (__list 2 4))))"), vI(5)), "a later program is correct");
	VT_ASSERT(vt_same(vt_value_of("((__defmacro mm (x) (__list (__quote __+) x 1)) (mm (__comptime (__+ 1 2))))"), vI(4)), "a later program with a macro is correct");
	VT_ASSERT(!duckVM_garbageCollect(&VM), "garbage is collected");
}
static void compile_fails(unsigned long lo, unsigned long hi) {
	setup(1);
	unsigned long p = lo + vt_pick(hi - lo);
	vt_n = 0; P(progs[p].s);
	fail_from_here();
	dl_error_t e = vt_compile();
	failed_or_stop();
	if (!e) {
		VT_ASSERT(vt_bc, "bytecode");
		VT_ASSERT(!duckVM_execute(&VM, vt_bc, vt_bcn), "a program that compiles in spite of a failed allocation runs");
		VT_ASSERT(vt_same(vt_top(&VM), expected(p)), "a program that compiles in spite of a failed allocation is correct");
		vt_free_bc();
	}
	works(1);
	/* The same program again. */
	VT_ASSERT(vt_same(vt_value_of(progs[p].s), expected(p)), "the program compiles and runs once memory is available");
	duckVM_quit(&VM); duckLisp_quit(&DLC);
	VT_REACH("end");
}
/* @q configs=default,inference,no-optimize reach=end | while each of 6 programs compiles (arithmetic, lists, strings, closures, loops, globals), any one allocation fails */
void h_compile_a(void) { compile_fails(0, 6); }
/* @q configs=default,inference,no-optimize reach=end | the same for 6 programs with quotation, a macro, comptime, a composite, apply, nested closures */
void h_compile_b(void) { compile_fails(6, 12); }
/* @q configs=default,inference,no-optimize reach=end | the same for 6 programs with substrings, recursion, symbols, conditionals, rest arguments */
void h_compile_c(void) { compile_fails(12, NPROG); }
static void execute_fails(int globals, unsigned long depths) {
	setup(globals);
	unsigned long p = vt_pick(NPROG), d = vt_pick(depths);
	vt_n = 0;
	/* Different objects find the stacks full. */
	PC('(');
	for (unsigned long i = 0; i < d; i++) { P("(__var p"); PU(i); P(" 1) "); }
	P(progs[p].s);
	PC(')');
	VT_ASSERT(!vt_compile(), "the program compiles");
	fail_from_here();
	dl_error_t e = duckVM_execute(&VM, vt_bc, vt_bcn);
	failed_or_stop();
	if (!e) VT_ASSERT(vt_same(vt_top(&VM), expected(p)), "a program that runs in spite of a failed allocation is correct");
	else VT_REACH("error");
	dl_uint8_t *bc = vt_bc; dl_size_t bcn = vt_bcn;
	works(globals);
	vt_bc = bc; vt_bcn = bcn;
	VT_ASSERT(!duckVM_execute(&VM, vt_bc, vt_bcn), "the bytecode runs once memory is available");
	VT_ASSERT(vt_same(vt_top(&VM), expected(p)), "the bytecode is correct once memory is available");
	vt_free_bc();
	vt_close();
	VT_REACH("end");
}
/* @q reach=end,error | while each of the 18 programs executes in a new VM, below 0 to 7 variables, any one allocation fails; everything is freed at quit */
void h_execute(void) { execute_fails(0, 8); }
/* @q reach=end,error | the same in a VM that has run a program */
void h_execute_later(void) { execute_fails(1, 4); }
/* @q reach=end,error | any one allocation fails while a program runs that makes the collector run often, in a heap of 44 objects */
void h_execute_gc(void) {
	vt_open_n(2, 44);
	vt_open_out();
	one = vt_inputs[0] = vI((long) vt_draw());
	vt_n = 0;
	P("((__var keep (__list (in0) 7)) (__var f ((__var y (in0)) (__lambda () y))) (__var v (__vector 1 (in0))) (__var i 0)"
	  " (__while (__< i 6) (__setq i (__+ i 1)) (__list (__lambda () i) (__vector i keep) \"text\" (__list v f)))"
	  " (__if (__= (__car keep) (__get-vector-element v 1)) (__funcall f) 1))");
	VT_ASSERT(!vt_compile(), "the program compiles");
	fail_from_here();
	dl_error_t e = duckVM_execute(&VM, vt_bc, vt_bcn);
	failed_or_stop();
	if (!e) VT_ASSERT(vt_same(vt_top(&VM), one), "a program that runs in spite of a failed allocation is correct");
	else VT_REACH("error");
	VT_ASSERT(!duckVM_softReset(&VM), "the VM can be reset");
	VT_ASSERT(!duckVM_execute(&VM, vt_bc, vt_bcn), "the bytecode runs once memory is available");
	VT_ASSERT(vt_same(vt_top(&VM), one), "the bytecode is correct once memory is available");
	vt_free_bc();
	vt_close();
	VT_REACH("end");
}
/* @q reach=end,error | any one allocation fails in a collection between executions: no live object is lost */
void h_collect(void) {
	setup(0);
	VT_ASSERT(!vt_do("((__global a (__list (__list (in0) (__vector 1 (__list 5 (in0))) \"s\") (__quote q))) (__global n 3) (__global f ((__var y 4) (__lambda () (__setq y (__+ y 1)) y))))"), "a program");
	VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
	fail_from_here();
	dl_error_t e = duckVM_garbageCollect(&VM);
	failed_or_stop();
	if (e) VT_REACH("error");
	VT_ASSERT(vt_same(vt_value_of("(f)"), vI(5)), "the variable of a function survives");
	VT_ASSERT(vt_same(vt_value_of("(__car (__car a))"), one), "a list survives");
	if (vt_pick(2)) VT_ASSERT(!duckVM_garbageCollect(&VM), "garbage is collected");
	VT_ASSERT(vt_same(vt_value_of("(__car (__cdr (__get-vector-element (__car (__cdr (__car a))) 1)))"), one), "a vector survives");
	VT_ASSERT(vt_same(vt_value_of("(__length (__car (__cdr (__cdr (__car a)))))"), vI(1)), "a string survives");
	VT_ASSERT(vt_same(vt_value_of("(f)"), vI(6)), "the variable of a function survives");
	works(0);
	vt_close();
	VT_REACH("end");
}
/* Programs with an error, which is described in the error logs. */
static const char *const wrong[] = {
	"(__substring 1)", "(__setq 5 1)", "(__list 1", "(__setq)", "(__lambda 1 2)", "((__defmacro m (x) (__car 5)) (m 1))",  /* refused by the compiler */
	"(__car 5)", "((__var v (__vector 1)) (__get-vector-element v 4))", "(__funcall (__lambda (x) (__undefined)) 1)", "((__defun f (n) (__+ n (__substring \"abc\" 2 1))) (f 1))", "(__call-nothing)",
};
#define NWRONG (sizeof wrong / sizeof *wrong)
/* @q configs=default,inference max=100 reach=end | each of 11 programs with an error is compiled and executed while any one allocation fails, then twice that or another one is, with the error logs kept or emptied in between */
void h_reports(void) {
	setup(1);
	unsigned long p = vt_pick(NWRONG), q = vt_pick(2) ? p : (p + 5) % NWRONG, n = 2, clear = vt_pick(2);
	fail_from_here();
	VT_ASSERT(vt_do(wrong[p]), "the error is reported");
	failed_or_stop();
	for (unsigned long i = 0; i < n; i++) {
		if (clear) DLC.errors.elements_length = 0, VM.errors.elements_length = 0;
		VT_ASSERT(!duckVM_softReset(&VM), "the VM can be reset");
		VT_ASSERT(vt_do(wrong[q]), "the next error is reported");
	}
	works(1);
	duckVM_quit(&VM); duckLisp_quit(&DLC);
	VT_REACH("end");
}
static dl_error_t host_push(unsigned long k) {
	static dl_uint8_t text[] = "some text";
	switch (k) {
	case 0: return duckVM_pushNil(&VM);
	case 1: return duckVM_pushInteger(&VM);
	case 2: return duckVM_pushFloat(&VM);
	case 3: return duckVM_pushBoolean(&VM);
	case 4: return duckVM_pushString(&VM, text, 9);
	case 5: return duckVM_pushSymbol(&VM, 3, text, 4);
	case 6: return duckVM_pushCompressedSymbol(&VM, 3);
	case 7: return duckVM_pushNewType(&VM);
	case 8: return duckVM_pushCons(&VM);
	case 9: return duckVM_pushVector(&VM, 3);
	case 10: return duckVM_pushComposite(&VM, 40);
	case 11: return duckVM_pushExistingType(&VM, 40);
	case 12: return duckVM_push(&VM, 0);
	default: return duckVM_pushGlobal(&VM, duckLisp_symbol_nameToValue(&DLC, (dl_uint8_t *) "keep", 4));
	}
}
/* @q reach=end,error | each of 14 pushing functions of the C API, above 0 to 8 objects, any one allocation fails: the stack is as before */
void h_host(void) {
	setup(0);
	VT_ASSERT(!vt_do("(__global keep 1)") && !duckVM_popAll(&VM), "a program before the failure");
	unsigned long k = vt_pick(14), d = vt_pick(9);
	dl_error_t e = duckVM_pushInteger(&VM);
	VT_ASSERT(!e && !duckVM_setInteger(&VM, one.i), "the first object");
	for (unsigned long i = 0; i < d; i++) VT_ASSERT(!duckVM_pushNil(&VM), "an object");
	fail_from_here();
	e = host_push(k);
	failed_or_stop();
	if (e) {
		VT_REACH("error");
		VT_ASSERT(duckVM_stackLength(&VM) == d + 1, "nothing is pushed by a call that fails");
		VT_ASSERT(!host_push(k), "the call succeeds once memory is available");
	}
	VT_ASSERT(duckVM_stackLength(&VM) == d + 2, "one object is pushed by a call that succeeds");
	VT_ASSERT(!duckVM_popSeveral(&VM, d + 1), "the objects can be popped");
	VT_ASSERT(vt_same(vt_top(&VM), one), "the first object is unchanged");
	works(0);
	vt_close();
	VT_REACH("end");
}
/* @q configs=default,inference reach=end,error | any one allocation fails in duckLisp_init, duckVM_init and the linking of callbacks */
void h_init(void) {
	static const char *const names[] = {"in0", "in1"};
	vt_memory();
	memset(&DLC, 0, sizeof DLC);
	memset(&VM, 0, sizeof VM);
	fail_from_here();
	dl_error_t e = vt_dl_open(VT_MAXOBJ);
	if (!e) { e = vt_vm_open(VT_MAXOBJ); if (!e) { e = vt_link("in0", vt_cb0, "()"); } }
	failed_or_stop();
	if (e) {
		/* Start again from the beginning. */
		VT_REACH("error");
		memset(&DLC, 0, sizeof DLC); memset(&VM, 0, sizeof VM);
		VT_ASSERT(!vt_dl_open(VT_MAXOBJ) && !vt_vm_open(VT_MAXOBJ) && !vt_link("in0", vt_cb0, "()"), "starts once memory is available");
	}
	vt_inputs[0] = vI((long) vt_draw());
	VT_ASSERT(vt_same(vt_value_of("((__var a 3) (__global g9 (__lambda (z) (__+ a z))) (g9 (in0)))"), vI(vt_inputs[0].i + 3)), "a program is correct");
	VT_REACH("end");
}
