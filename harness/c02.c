/* Comparison, equality, negation and emptiness of arbitrary values. */
#include "vt_dl.h"

static void place(int shape, const char *op) {
	vt_n = 0;
	switch (shape) {
	case 0: P("("); P(op); P(" (in0) (in1))"); break;
	case 1: P("((__var b (in1)) (__var a (in0)) ("); P(op); P(" a b))"); break;
	default: P("((__global a (in0)) (__defun f (b) ("); P(op); P(" a b)) (f (in1)))"); break;
	}
}
static void order(int greater) {
	vt_open(2);
	V a = vt_inputs[0] = vt_value(3), b = vt_inputs[1] = vt_value(3);
	place(vt_pick(3), greater ? "__>" : "__<");
	int want;
	if (a.t == duckVM_object_type_float || b.t == duckVM_object_type_float) want = greater ? vt_dbl(a) > vt_dbl(b) : vt_dbl(a) < vt_dbl(b);
	else want = greater ? a.i > b.i : a.i < b.i;
	VT_ASSERT(vt_same(vt_value_of(0), vB(want)), "the order of two numbers");
	VT_REACH("end");
}
/* @q configs=default,inference tconfigs=default,portable,inference,no-optimize | any two of Integer (64 bit), double, Boolean; 3 operand placements */
void h_less(void) { order(0); }
/* @q configs=default tconfigs=default,portable,inference,no-optimize | as h_less */
void h_greater(void) { order(1); }

/* @q configs=default,portable tconfigs=default,portable,inference,no-optimize | any two of Integer (64 bit), Boolean, double, nil; 3 operand placements */
void h_equal_scalar(void) {
	vt_open(2);
	V a = vt_inputs[0] = vt_value(4), b = vt_inputs[1] = vt_value(4);
	place(vt_pick(3), "__=");
	int want = a.t == b.t && (a.t == duckVM_object_type_float ? a.f == b.f : a.i == b.i);
	VT_ASSERT(vt_same(vt_value_of(0), vB(want)), "equality of two scalars");
	VT_REACH("end");
}

static unsigned char sa[4], sb[4];
static unsigned long na, nb;
static dl_error_t push_sa(duckVM_t *vm) { return duckVM_pushString(vm, sa, na); }
static dl_error_t push_sb(duckVM_t *vm) { return duckVM_pushString(vm, sb, nb); }
/* @q configs=default,portable tconfigs=default,portable,inference | two Strings of any bytes, 0 to 4 long each; compared whole and as their tails */
void h_equal_string(void) {
	unsigned long i, cut_a, cut_b;
	na = vt_pick(5); nb = vt_pick(5);
	for (i = 0; i < na; i++) sa[i] = vt_byte();
	for (i = 0; i < nb; i++) sb[i] = vt_byte();
	cut_a = na ? vt_pick(2) : 0; cut_b = nb ? vt_pick(2) : 0;
	vt_open(0);
	VT_ASSERT(!vt_link("sa", push_sa, "()") && !vt_link("sb", push_sb, "()"), "callbacks link");
	P("(__= "); P(cut_a ? "(__cdr (sa))" : "(sa)"); P(" "); P(cut_b ? "(__cdr (sb))" : "(sb)"); P(")");
	int want = na - cut_a == nb - cut_b;
	for (i = 0; want && i < na - cut_a; i++) want = sa[i + cut_a] == sb[i + cut_b];
	VT_ASSERT(vt_same(vt_value_of(0), vB(want)), "equality of two strings");
	VT_REACH("end");
}
static const char *const things[] = {"1", "true", "1.5", "\"a\"", "\"\"", "()", "(__quote s)", "(__list 1)", "(__vector 1)", "(__vector)", "(__cdr (__vector 1))", "(__make-type)"};
static const int null_of[] = {0, 0, 0, 0, 1, 1, 0, 0, 0, 1, 1, 0};
enum { NTHINGS = 12 };
static int kind_of(unsigned long k) { return k == 3 || k == 4 ? 3 : k == 5 || k == 7 ? 5 : k >= 8 && k <= 10 ? 8 : k; }
/* @q configs=default | every pair of 12 values of 8 types bound to variables: a thing equals itself, values of different types are never equal, distinct lists, vectors and types are not equal */
void h_equal_kinds(void) {
	unsigned long x = vt_pick(NTHINGS), y = vt_pick(NTHINGS), self = vt_pick(2);
	vt_open(0);
	P("((__var x "); P(things[x]); P(") (__var y "); P(things[y]); P(") (__= x "); P(self ? "x" : "y"); P("))");
	if (!self && kind_of(x) == kind_of(y) && kind_of(x) == 8) { VT_REACH("skip"); return; }    /* empty vectors: identity unspecified */
	V r = vt_value_of(0);
	int want = self || (x == y && x != 7 && x != 11);
	VT_ASSERT(vt_same(r, vB(want)), "equality across types");
	VT_REACH("end");
}
/* @q configs=default | two vectors with any of equal or different contents are only equal when identical and at the same offset */
void h_equal_vector(void) {
	vt_open(2);
	vt_inputs[0] = vt_value(4); vt_inputs[1] = vt_value(4);
	VT_ASSERT(vt_same(vt_value_of("((__var v (__vector (in0) (in1))) (__var w v) (__= v w))"), vB(1)), "the same vector");
	VT_ASSERT(vt_same(vt_value_of("((__var v (__vector (in0) (in1))) (__= v (__vector (in0) (in1))))"), vB(0)), "another vector");
	VT_ASSERT(vt_same(vt_value_of("((__var v (__vector (in0) (in1))) (__= v (__cdr v)))"), vB(0)), "the tail is not the whole");
	VT_ASSERT(vt_same(vt_value_of("((__var v (__vector (in0) (in1))) (__= (__cdr v) (__cdr v)))"), vB(1)), "the same tail");
	VT_ASSERT(vt_same(vt_value_of("((__var v (__cons (in0) (in1))) (__= v v))"), vB(1)), "the same list");
	VT_ASSERT(vt_same(vt_value_of("((__var v (__cons (in0) (in1))) (__= v (__cons (in0) (in1))))"), vB(0)), "another list");
	VT_REACH("end");
}
/* @q configs=default,inference tconfigs=default,portable,inference,no-optimize | any Integer, Boolean, double or nil, as callback result, variable or literal */
void h_not(void) {
	vt_open(1);
	V a = vt_inputs[0] = vt_value(4), want;
	P(vt_pick(2) ? "((__var a (in0)) (__not a))" : "(__not (in0))");
	V r = vt_value_of(0);
	if (a.t == duckVM_object_type_integer) want = vI(!a.i);
	else if (a.t == duckVM_object_type_float) want = vF(a.f == 0 ? 1.0 : 0.0);
	else if (a.t == duckVM_object_type_bool) want = vB(!a.i);
	else want = vB(1);
	VT_ASSERT(vt_same(r, want), "negation");
	VT_REACH("end");
}
/* @q configs=default,inference | each of 12 values of 8 types, or an arbitrary scalar */
void h_null(void) {
	unsigned long x = vt_pick(NTHINGS + 1);
	vt_open(1);
	V a = vt_inputs[0] = x < NTHINGS ? vI(0) : vt_value(4);
	P("((__var x "); P(x < NTHINGS ? things[x] : "(in0)"); P(") (__null? x))");
	V r = vt_value_of(0);
	VT_ASSERT(vt_same(r, vB(x < NTHINGS ? null_of[x] : a.t == duckVM_object_type_list)), "emptiness");
	VT_REACH("end");
}
/* @q configs=default | an order comparison with a String, nil, Symbol, List, Vector, or Type on either side */
void h_order_error(void) {
	unsigned long k = 3 + vt_pick(NTHINGS - 3), g = vt_pick(2), side = vt_pick(2);
	vt_open(1);
	vt_inputs[0] = vt_value(3);
	P("((__var x "); P(things[k]); P(") ("); P(g ? "__>" : "__<"); P(side ? " x (in0)))" : " (in0) x))");
	VT_ASSERT(vt_run(), "ordering something that is not a number is an error");
	VT_ASSERT(!duckVM_softReset(&VM), "the VM can be reset");
	VT_ASSERT(vt_same(vt_value_of("(__+ 2 3)"), vI(5)), "the VM works after the error");
	VT_REACH("end");
}
