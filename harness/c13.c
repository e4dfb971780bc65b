/* Run-time errors: contained, and the VM usable afterwards. */
#include "vt_dl.h"
extern long vt_live;
extern size_t vt_largest;
static int vt_junk;
/* (fail): a host callback that leaves vt_junk objects more or less on the stack and fails. */
static dl_error_t cb_fail(duckVM_t *vm) {
	for (int i = 0; i < vt_junk; i++) if (duckVM_pushInteger(vm)) return dl_error_outOfMemory;
	for (int i = 0; i > vt_junk; i--) if (duckVM_pop(vm)) return dl_error_bufferUnderflow;
	return dl_error_invalidValue;
}
/* (call f): calls f without arguments from the host. */
static dl_error_t cb_call(duckVM_t *vm) {
	dl_error_t e = duckVM_call(vm, -1, 0);
	if (e) return e;
	return dl_error_ok;
}
static const char *const bad[] = {
	"(__car 1)", "(__cdr true)", "(__+ 1 \"a\")", "(__- () 1)", "(__* (__quote a) 2)", "(__/ 1 0)", "(__< 1 ())", "(__> \"a\" 1)",
	"(__get-vector-element (__vector 1) 1)", "(__set-vector-element (__vector) 0 1)", "(__set-car 1 1)", "(__set-cdr () 1)", "undefined-global",
	"(undefined-function 1)", "(__funcall 1)", "(__apply 1 ())", "(__apply (__lambda () 1) (__list 1 2))", "(__funcall (__lambda (a) a))",
	"(__funcall (__lambda () 1) 2)", "(__substring \"abc\" 0 9)", "(__concatenate 1 \"a\")", "(__make-string 1)", "(__length 5)",
	"(__composite-value 1)", "(__set-composite-value 1 2)", "(__set-composite-function 1 2)", "(__make-vector -1 0)", "(fail)", "(__symbol-string 1)", "(__symbol-id 1)",
};
#define NBAD (sizeof bad / sizeof *bad)
static const char *const context[][2] = {
	{"", ""}, {"(__+ 1 ", ")"}, {"(__var z ", ")"}, {"(__setq x ", ")"}, {"(__if ", " 1 2)"}, {"(__while ", " 1)"}, {"(__list 1 ", " 2)"}, {"(__vector 1 2 ", ")"},
	{"(fn ", ")"}, {"(out ", ")"}, {"(__funcall (__lambda (a) ", ") 1)"}, {"(__funcall (__lambda (&rest a) (__funcall (__lambda () a ", "))) 1 2)"},
	{"(__apply (__lambda (a) ", ") (__list 1))"}, {"(__funcall (__make-instance (__make-type) 1 (__lambda (a) (__var b a) ", ")) 1)"}, {"(call (__lambda () ", "))"},
	{"((__var z x) (__global k (__lambda () (__setq z (__+ z 1)))) ", ")"},
	{"((__defun r (n) (__if (__< n 1) ", " (__+ 1 (self (__- n 1))))) (r 5))"}, {"(__while true ((__var w 3) (__var v (__lambda () w)) ", "))"},
	{"(call (__lambda () (__+ 1 (call (__lambda () ", ")))))"}, {"(__global gg ", ")"}, {"(__cons 1 (__cons (__list x ", ") x))"},
};
#define NCTX (sizeof context / sizeof *context)
static void start(void) {
	vt_open(3);
	vt_open_out();
	VT_ASSERT(!vt_link("fail", cb_fail, "()") && !vt_link("call", cb_call, "(I)"), "callbacks link");
	for (int i = 0; i < 3; i++) vt_inputs[i] = vI((long) vt_draw());
	vt_junk = 0;
	VT_ASSERT(!vt_do("(__global count (__lambda (n) ((__var i 0) (__while (__< i n) (__setq i (__+ i 1))) i)))"), "a program before the error");
	VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
}
static void program(unsigned long c, unsigned long b) {
	vt_n = 0;
	P("((__var x (in0)) (__var y 1) (__defun fn (a) a) (__global h (__lambda () x)) (__global g (in1)) (__setq x (in2)) (out 1) ");
	P(context[c][0]); P(bad[b]); P(context[c][1]);
	P(" (out 2) (__setq g 0) (__setq x 0) 5)");
}
static void failing(unsigned long c, unsigned long b) {
	vt_nout = 0;
	program(c, b);
	VT_ASSERT(!vt_compile(), "the program compiles");
	VT_ASSERT(duckVM_execute(&VM, vt_bc, vt_bcn), "the error is returned");
	vt_free_bc();
	VT_ASSERT(vt_nout == 1, "nothing is executed after the error");
	VT_ASSERT(!duckVM_softReset(&VM), "the VM can be reset");
	VT_ASSERT(duckVM_stackLength(&VM) == 0, "the stack is empty after a reset");
}
static void works(void) {
	VT_ASSERT(vt_same(vt_value_of("((__var a 7) (__var b 8) (h))"), vt_inputs[2]), "a captured variable keeps its value");
	VT_ASSERT(vt_same(vt_value_of("g"), vt_inputs[1]), "a global keeps its value");
	VT_ASSERT(vt_same(vt_value_of("((__var a (count 3)) (__var f (__lambda (z) (__+ a z))) (__funcall f (__car (__cdr (__list 1 2)))))"), vI(5)), "a later program is correct");
	VT_ASSERT(duckVM_stackLength(&VM) == 0, "the stack is in step");
}
static void one(unsigned long c) {
	start();
	failing(c, vt_pick(NBAD));
	works();
	if (c == 15) { VT_ASSERT(vt_same(vt_value_of("((__var a 7) (k) (k))"), vI(vt_inputs[2].i + 2)), "a variable captured in an inner scope keeps its value"); }
	VT_ASSERT(!duckVM_garbageCollect(&VM), "garbage is collected");
	works();
	vt_close();
	VT_REACH("end");
}
/* @q configs=default,inference tconfigs=default,inference,no-optimize,portable max=100 | each of 30 failing operations in 7 argument positions at top level */
void h_top(void) { one(vt_pick(7)); }
/* @q configs=default tconfigs=default,inference,no-optimize,portable max=100 | each of 30 failing operations as argument, in functions, in nested functions and in apply */
void h_calls(void) { one(7 + vt_pick(7)); }
/* @q configs=default tconfigs=default,inference,no-optimize,portable max=100 | each of 30 failing operations in a function called from the host, a scope with captured variables, a recursion of 6 levels, a loop, nested host calls, a definition and a nested list */
void h_deep(void) { one(14 + vt_pick(NCTX - 14)); }
/* @q configs=default max=100 tmax=300 | every sequence of 3 failing programs out of 10 operations in 5 contexts with a collection or a correct program between them */
void h_repeated(void) {
	static const int ops[] = {0, 5, 8, 12, 13, 15, 17, 19, 26, 27}, ctx[] = {0, 11, 14, 16, 17};
	start();
	for (int i = 0; i < 3; i++) {
		unsigned long c = ctx[i == 1 ? vt_pick(5) : (i + 1)], b = ops[i == 2 ? vt_pick(10) : i + 5];
		failing(c, b);
		switch (vt_pick(3)) {
		case 0: works(); break;
		case 1: VT_ASSERT(!duckVM_garbageCollect(&VM), "garbage is collected"); break;
		default: break;
		}
	}
	works();
	vt_close();
	VT_REACH("end");
}
/* @q configs=default,inference | a host callback that fails after pushing 1 to 3 or popping 1 or 2 objects, in each of the contexts */
void h_junk(void) {
	start();
	unsigned long c = vt_pick(NCTX);
	vt_junk = (int) vt_pick(6) - 2;
	failing(c, 27);
	works();
	vt_close();
	VT_REACH("end");
}
/* @q configs=default max=60 | without a reset: the error of one program leaves the objects on the stack, which the host can pop; the captured variables keep their values */
void h_popall(void) {
	start();
	vt_nout = 0;
	unsigned long c = vt_pick(7);
	program(c, vt_pick(3));
	VT_ASSERT(!vt_compile(), "the program compiles");
	VT_ASSERT(duckVM_execute(&VM, vt_bc, vt_bcn), "the error is returned");
	vt_free_bc();
	VT_ASSERT(vt_same(vt_value_of("g"), vt_inputs[1]), "a global keeps its value");
	VT_ASSERT(!duckVM_softReset(&VM), "the VM can be reset");
	works();
	VT_REACH("end");
}
/* @q configs=default max=100 | each of 21 contexts (calls up to 40 deep) failing 60 times with a reset after each: no more blocks and no larger blocks are allocated in rounds 21 to 60 than in the first 20 */
void h_growth(void) {
	unsigned long c = vt_pick(NCTX + 2), b = vt_pick(3);
	long live = 0;
	size_t largest = 0;
	start();
	vt_n = 0;
	P("((__var x (in0)) (__defun fn (a) a) (__global h (__lambda () x)) ");
	if (c < NCTX) P(context[c][0]);
	else P(c == NCTX ? "((__defun r (n) (__if (__< n 1) " : "((__defun r (n) (__var m n) (__var f (__lambda () m)) (__if (__< n 1) ");
	P(b == 0 ? "(__car 1)" : b == 1 ? "(fail)" : "(__funcall (__lambda (a) a))");
	if (c < NCTX) P(context[c][1]);
	else P(" (__+ 1 (self (__- n 1))))) (r 40))");
	P(" 5)");
	VT_ASSERT(!vt_compile(), "the program compiles");
	vt_largest = 0;
	for (int i = 0; i < 60; i++) {
		VT_ASSERT(duckVM_execute(&VM, vt_bc, vt_bcn), "the error is returned");
		VT_ASSERT(!duckVM_softReset(&VM), "the VM can be reset");
		VT_ASSERT(!dl_array_clear(&VM.errors), "the messages can be dropped");
		VT_ASSERT(!duckVM_garbageCollect(&VM), "garbage is collected");
		if (i == 19) { live = vt_live; largest = vt_largest; vt_largest = 0; }
	}
	VT_ASSERT(vt_live <= live && vt_largest <= largest, "failing again and again takes no more memory");
	vt_free_bc();
	vt_close();
	VT_REACH("end");
}
