/* Scopes that end in a form without a value: what they return is not specified, but everything around them is unaffected. */
#define VT_OUTS 16
#include "vt_dl.h"
static const char *const last[] = {"(__nop)", "(__defmacro m () 5)", "(__var y (in0))", "(__defun g (x) x)", "(__noscope (__var y 1) (__var z 2))", "((__nop))", "((__var y 3) (__nop))", "(__noscope (__nop))", "(__noscope)"};
/* @q configs=default,inference,no-optimize max=100 | scopes with 0..2 variables that end in one of 9 forms without a value, as a statement, the value of a variable, an operand, the body of a function, a loop or a branch, one or two deep; arbitrary Integers around them */
void h_empty(void) {
	vt_open(2);
	vt_open_out();
	vt_inputs[0] = vI((long) vt_draw()); vt_inputs[1] = vI((long) vt_draw());
	unsigned long place = vt_pick(9), n = vt_pick(3), k = vt_pick(9), deep = vt_pick(2);
	static const char *const before[] = {"", "(__var b ", "(__var b (__list (in1) ", "(__funcall (__lambda () ", "(__var b (__funcall (__lambda (p q) ", "((__var i 0) (__while (__< i 2) (__setq i (__+ i 1)) ", "(__if (__= (in0) (in1)) ", "(__when (__= (in0) (in1)) ", "(__var b (__if (__= (in0) (in1)) 5 "};
	static const char *const after[] = {"", ")", " 9))", "))", ") 1 2))", "))", " 6)", ")", "))"};
	vt_n = 0;
	P("((__var a (in0)) (__var f (__lambda (x) (__+ x a))) ");
	P(before[place]);
	if (deep) P("((__var t 1) ");
	P("(");
	if (n > 0) P("(__var u (in1)) ");
	if (n > 1) P("(__var v 2) (out v) ");
	P(last[k]); P(")");
	if (deep) P(")");
	P(after[place]);
	P(" (__var c (in1)) (out a) (out c)");
	if (place == 2) P(" (out (__car b)) (out (__car (__cdr (__cdr b))))");
	P(" (__setq a (__+ a 1)) (out (__funcall f c)) (__- c a))");
	VT_ASSERT(!vt_run(), "the program executes");
	int at = n < 2 ? 0 : place == 5 ? 2 : place == 6 || place == 7 ? vt_inputs[0].i == vt_inputs[1].i : place == 8 ? vt_inputs[0].i != vt_inputs[1].i : 1;
	for (int i = 0; i < at; i++) VT_ASSERT(vt_same(vt_out[i], vI(2)), "the scope is executed");
	VT_ASSERT(vt_nout == at + (place == 2 ? 5 : 3), "the program runs once");
	VT_ASSERT(vt_same(vt_out[at], vt_inputs[0]) && vt_same(vt_out[at + 1], vt_inputs[1]), "variables around the scope have their values");
	at += 2;
	if (place == 2) { VT_ASSERT(vt_same(vt_out[at], vt_inputs[1]) && vt_same(vt_out[at + 1], vI(9)), "operands next to the scope have their values"); at += 2; }
	VT_ASSERT(vt_same(vt_out[at], vI((long) ((unsigned long) vt_inputs[0].i + 1 + (unsigned long) vt_inputs[1].i))), "a function has its variable");
	VT_ASSERT(vt_same(vt_top(&VM), vI((long) ((unsigned long) vt_inputs[1].i - (unsigned long) vt_inputs[0].i - 1))), "the program has its value");
	vt_close();
	VT_REACH("end");
}
/* @q configs=default,inference,no-optimize max=100 | an if whose condition is not a literal and one of whose branches is one of 3 forms without a value, alone or in 4 places: refused, compiler and VM usable; with a literal condition only the branch that is taken counts */
void h_branch(void) {
	static const char *const none[] = {"(__nop)", "(__noscope)", "(__noscope (__nop))"};
	static const char *const before[] = {"", "((__var a 1) ", "(out ", "((__var f (__lambda () ", "((__var a (__list "}, *const after[] = {"", " (out a))", ")", ")) (out 1))", " 2)) (out 1))"};
	unsigned long place = vt_pick(5), k = vt_pick(3), then = vt_pick(2), literal = vt_pick(3);
	vt_open(2); vt_open_out();
	vt_inputs[0] = vt_value(4); vt_inputs[1] = vI((long) vt_draw());
	P(before[place]);
	P("(__if "); P(literal == 0 ? "(in0)" : literal == 1 ? "true" : "false"); P(" ");
	if (then) P(none[k]); else P("(in1)");
	P(" ");
	if (then) P("(in1)"); else P(none[k]);
	P(")"); P(after[place]);
	if (literal == 0) {
		VT_ASSERT(vt_run(), "a branch without a value is refused");
		VT_ASSERT(vt_nout == 0, "nothing of it is executed");
	}
	else if ((literal == 1) != then && place < 2) {
		VT_ASSERT(!vt_run(), "a branch that is not taken does not matter");
		if (place == 0) VT_ASSERT(vt_same(vt_top(&VM), vt_inputs[1]), "the value of the branch that is taken");
		else VT_ASSERT(vt_nout == 1 && vt_same(vt_out[0], vI(1)), "variables keep their values");
	}
	VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
	vt_nout = 0;
	VT_ASSERT(vt_same(vt_value_of("((__var a (in1)) (__if a a 0))"), vt_inputs[1].i ? vt_inputs[1] : vI(0)), "compiler and VM are usable");
	duckVM_quit(&VM); duckLisp_quit(&DLC);
	VT_REACH("end");
}
