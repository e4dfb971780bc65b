/* Arithmetic on arbitrary operands, however the operands reach the operator. */
#include "vt_dl.h"

static const char *const ops[] = {"__+", "__-", "__*", "__/"};
/* Both operands Boolean is left out: the manual does not say what such a result is. */
static void operands(V *a, V *b) {
	*a = vt_inputs[0] = vt_value(3);
	*b = vt_inputs[1] = vt_value(3);
	VT_ASSUME(!(a->t == duckVM_object_type_bool && b->t == duckVM_object_type_bool));
}
static void form(const char *op, const char *x, const char *y) { P("("); P(op); P(" "); P(x); P(" "); P(y); P(")"); }
/* The operands are callback results, locals (in either declaration order), captured variables, or globals. */
static void program(int shape, const char *op) {
	vt_n = 0;
	switch (shape) {
	case 0: form(op, "(in0)", "(in1)"); break;
	case 1: P("((__var a (in0)) (__var b (in1)) "); form(op, "a", "b"); P(")"); break;
	case 2: P("((__var b (in1)) (__var a (in0)) (__var c 5) "); form(op, "a", "b"); P(")"); break;
	case 3: P("((__var a (in0)) (__defun f (b) "); form(op, "a", "b"); P(") (f (in1)))"); break;
	case 4: P("((__global a (in0)) (__var b (in1)) "); form(op, "a", "b"); P(")"); break;
	default: P("((__var a (in0)) "); form(op, "a", "(in1)"); P(")"); break;
	}
}
static void arith(int op, int shape) {
	V a, b;
	vt_open(2);
	operands(&a, &b);
	program(shape, ops[op]);
	if (op == 3 && a.t != duckVM_object_type_float && b.t != duckVM_object_type_float) {
		if (b.i == 0) {
			VT_ASSERT(vt_run(), "an Integer division by zero is an error");
			VT_ASSERT(!duckVM_softReset(&VM), "the VM can be reset");
			VT_ASSERT(vt_same(vt_value_of("(__+ 2 3)"), vI(5)), "the VM works after the error");
			VT_REACH("zero");
			return;
		}
	}
	V r = vt_value_of(0);
	VT_ASSERT(vt_same(r, vt_arith(op, a, b)), "the value of the operation");
	VT_REACH("end");
}
/* @q configs=default,portable tconfigs=default,portable,inference,no-optimize | both operands arbitrary: any 64-bit Integer, any double, Boolean (not both Boolean); 6 operand placements */
void h_add(void) { arith(0, vt_pick(6)); }
/* @q configs=default,portable tconfigs=default,portable,inference,no-optimize | as h_add */
void h_sub(void) { arith(1, vt_pick(6)); }
/* @q configs=default tconfigs=default,portable,inference,no-optimize | as h_add */
void h_mul(void) { arith(2, vt_pick(6)); }
/* @q configs=default tconfigs=default,portable,inference,no-optimize reach=end,zero | as h_add, including division by zero and the smallest Integer by -1 */
void h_div(void) { arith(3, vt_pick(6)); }

/* @q configs=default,no-optimize | every order of two operators on three arbitrary Integers held in locals and callback results */
void h_nested(void) {
	unsigned long o1 = vt_pick(3), o2 = vt_pick(3), left = vt_pick(2);
	vt_open(3);
	for (int i = 0; i < 3; i++) vt_inputs[i] = vI((long) vt_draw());
	P("((__var a (in0)) (__var b (in1)) (");
	P(ops[o1]);
	if (left) { P(" ("); P(ops[o2]); P(" a b) (in2)))"); }
	else { P(" (in2) ("); P(ops[o2]); P(" a b)))"); }
	V in = vt_arith(o2, vt_inputs[0], vt_inputs[1]);
	V want = left ? vt_arith(o1, in, vt_inputs[2]) : vt_arith(o1, vt_inputs[2], in);
	VT_ASSERT(vt_same(vt_value_of(0), want), "the value of nested operations");
	VT_REACH("end");
}
static int text_of(unsigned long k, int slot, char *out) {
	static const char *const t[] = {"\"s\"", "()", "(__quote s)", "(__list 1)", "(__vector 1)", "(__lambda () 1)", "(__make-type)"};
	for (const char *s = t[k]; *s;) *out++ = *s++;
	*out = 0;
	return slot;
}
/* @q configs=default | one operand a String, nil, Symbol, List, Vector, Closure or Type; the other an arbitrary number, either side */
void h_nonnumber(void) {
	char x[32];
	unsigned long op = vt_pick(4), k = vt_pick(7), side = vt_pick(2);
	vt_open(1);
	vt_inputs[0] = vt_value(3);
	text_of(k, 0, x);
	P("((__var x "); P(x); P(") ");
	if (side) form(ops[op], "x", "(in0)"); else form(ops[op], "(in0)", "x");
	P(")");
	VT_ASSERT(vt_run(), "arithmetic on something that is not a number is an error");
	VT_ASSERT(!duckVM_softReset(&VM), "the VM can be reset");
	VT_ASSERT(vt_same(vt_value_of("(__+ 2 3)"), vI(5)), "the VM works after the error");
	VT_REACH("end");
}
/* @q configs=default,inference | Integer literals of up to 5 arbitrary digits, either sign, + and - */
void h_literal(void) {
	unsigned long op = vt_pick(2), neg = vt_pick(2), n = 1 + vt_pick(5);
	long v = 0;
	vt_open(1);
	vt_inputs[0] = vI((long) vt_draw());
	P("("); P(ops[op]); P(" (in0) ");
	if (neg) PC('-');
	for (unsigned long i = 0; i < n; i++) { long d = vt_range(0, 9); v = v * 10 + d; PC('0' + d); }
	P(")");
	VT_ASSERT(vt_same(vt_value_of(0), vt_arith(op, vt_inputs[0], vI(neg ? -v : v))), "the value with a literal operand");
	VT_REACH("end");
}
