/* Calls: arity, argument order, &rest, funcall, apply, self, composites as functions, host callbacks. */
#include "vt_dl.h"

static const char *const params[] = {"p", "q", "r", "s"};
static void args(int from, int to) { for (int i = from; i < to; i++) { P(" (in"); PU(i); P(")"); } }
/* Reports every parameter with (out ..), then the elements of the rest list. */
static void body(int arity, int variadic) {
	for (int i = 0; i < arity; i++) { P("(out "); P(params[i]); P(") "); }
	if (variadic) P("(__while rest (out (__car rest)) (__setq rest (__cdr rest))) ");
	P("77");
}
static void signature(int arity, int variadic) {
	P("(");
	for (int i = 0; i < arity; i++) { if (i) P(" "); P(params[i]); }
	if (variadic) P(arity ? " &rest rest" : "&rest rest");
	P(") ");
}
static int expect_error(void) {
	dl_error_t e = vt_compile();
	if (!e) e = duckVM_execute(&VM, vt_bc, vt_bcn);
	vt_free_bc();
	VT_ASSERT(e, "calling with a wrong number of arguments is an error");
	VT_ASSERT(!duckVM_softReset(&VM), "the VM can be reset");
	VT_ASSERT(vt_same(vt_value_of("((__defun ok (x) (__+ x 1)) (ok 4))"), vI(5)), "the VM works after the error");
	return 0;
}
static void call(int max_arity, int max_args, int ways) {
	vt_open(6);
	vt_open_out();
	unsigned long arity = vt_pick(max_arity + 1), variadic = vt_pick(2), n = vt_pick(max_args + 1), way = vt_pick(ways), direct = way == 3 || way == 4 ? vt_pick(n + 1) : n;
	for (unsigned long i = 0; i < n; i++) vt_inputs[i] = vI((long) vt_draw());
	vt_n = 0;
	switch (way) {
	case 0: P("((__defun f "); signature(arity, variadic); body(arity, variadic); P(") (f"); args(0, n); P("))"); break;
	case 1: P("((__var f (__lambda "); signature(arity, variadic); body(arity, variadic); P(")) (__funcall f"); args(0, n); P("))"); break;
	case 2: P("((__global gf (__lambda "); signature(arity, variadic); body(arity, variadic); P(")) (gf"); args(0, n); P("))"); break;
	case 3: P("((__defun f "); signature(arity, variadic); body(arity, variadic); P(") (__apply f"); args(0, direct); P(" (__list"); args(direct, n); P(")))"); break;
	case 4: P("((__var x 9) (__var f (__lambda "); signature(arity, variadic); body(arity, variadic); P(")) (__var l (__list"); args(direct, n); P(")) (__apply f"); args(0, direct); P(" l))"); break;
	default: P("((__var c (__make-instance (__make-type) 5 (__lambda "); signature(arity, variadic); body(arity, variadic); P("))) (__funcall c"); args(0, n); P("))"); break;
	}
	if (n < arity || (!variadic && n > arity)) { expect_error(); VT_REACH("arity"); return; }
	V r = vt_value_of(0);
	VT_ASSERT(vt_same(r, vI(77)), "the value of the body is returned");
	VT_ASSERT(vt_nout == n, "every argument arrives once");
	for (unsigned long i = 0; i < n; i++) VT_ASSERT(vt_same(vt_out[i], vt_inputs[i]), "arguments arrive in order");
	VT_REACH("end");
}
/* @q configs=default,inference tconfigs=default,inference,no-optimize max=100 reach=end,arity | functions of 0 to 3 parameters, with or without &rest, called with 0 to 4 arbitrary Integers by name, funcall, global name, apply (every split of direct and list arguments), or through a composite */
void h_call(void) { call(3, 4, 6); }
/* @q configs=default tier=thorough tconfigs=default tmax=400 reach=end,arity | as h_call with up to 4 parameters and 6 arguments */
void h_call_more(void) { call(4, 6, 6); }

/* @q configs=default,no-optimize,inference | a rest list of 0 to 3 arbitrary values, any of Integer, Boolean, double, nil, keeps their types and order */
void h_rest_types(void) {
	vt_open(3);
	vt_open_out();
	unsigned long n = vt_pick(4), way = vt_pick(2);
	for (unsigned long i = 0; i < n; i++) vt_inputs[i] = vt_value(4);
	P("((__defun f (&rest rest) "); body(0, 1);
	if (way) { P(") (__apply f (__list"); args(0, n); P(")))"); }
	else { P(") (f"); args(0, n); P("))"); }
	VT_ASSERT(vt_same(vt_value_of(0), vI(77)), "the value of the body is returned");
	VT_ASSERT(vt_nout == n, "every argument arrives once");
	for (unsigned long i = 0; i < n; i++) VT_ASSERT(vt_same(vt_out[i], vt_inputs[i]), "arguments arrive in order");
	VT_REACH("end");
}
/* @q configs=default,inference,no-optimize tconfigs=default,inference,no-optimize,portable | self-recursive sum and product of differences over an arbitrary depth 0 to 6 with an arbitrary accumulator */
void h_recursion(void) {
	vt_open(2);
	long d = vt_range(0, 6), want;
	vt_inputs[0] = vI(d);
	vt_inputs[1] = vI((long) vt_draw());
	unsigned long k = vt_pick(4);
	want = vt_inputs[1].i;
	switch (k) {
	case 0:
		P("((__defun f (n acc) (__if (__< 0 n) (self (__- n 1) (__+ acc n)) acc)) (f (in0) (in1)))");
		for (long i = d; i > 0; i--) want += i;
		break;
	case 1:
		P("((__defun f (n acc) (__if (__< 0 n) (__- (self (__- n 1) acc) n) acc)) (f (in0) (in1)))");
		for (long i = d; i > 0; i--) want -= i;
		break;
	case 2:
		P("((__var k 3) (__var f (__lambda (n acc) (__var m (__- n 1)) (__if (__< 0 n) ((__var r (self m acc)) (__+ k (__- r m))) acc))) (__funcall f (in0) (in1)))");
		for (long i = 1; i <= d; i++) want = 3 + (want - (i - 1));
		break;
	default:
		P("((__global even (__lambda (n a) (__if (__< 0 n) (odd (__- n 1) (__+ a 1)) a))) (__global odd (__lambda (n a) (__if (__< 0 n) (even (__- n 1) (__+ a 2)) (__- 0 a)))) (even (in0) (in1)))");
		for (long i = 0; i < d; i++) want += i % 2 ? 2 : 1;
		if (d % 2) want = -want;
		break;
	}
	VT_ASSERT(vt_same(vt_value_of(0), vI(want)), "the value of a recursive function");
	VT_REACH("end");
}
/* @q configs=default,inference | functions are called by name only when defined as functions or globals; locals of the same name do not shadow them and vice versa (two namespaces) */
void h_namespaces(void) {
	vt_open(2);
	vt_inputs[0] = vI((long) vt_draw());
	vt_inputs[1] = vI((long) vt_draw());
	unsigned long k = vt_pick(4);
	static const char *const src[] = {
		"((__defun f (x) (__+ x 1)) ((__var y (in0)) (__var z (f y)) z))",
		"((__global g1 (__lambda (x) (__+ x 1))) ((__var g2 (__lambda (x) (__+ x 2))) (g1 (in0))))",
		"((__defun f (x) (__+ x 2)) ((__defun f (x) (__+ x 1)) (f (in0))))",
		"((__defun f (x) (__+ x 1)) ((__defun g (x) (__+ x 7)) (__var h (g 1)) (f (in0))))",
	};
	VT_ASSERT(vt_same(vt_value_of(src[k]), vI(vt_inputs[0].i + 1)), "the function of that name is called");
	VT_REACH("end");
}
/* @q configs=default,portable | funcall and apply of an arbitrary Integer, Boolean, double, nil, a String, Symbol, list, vector, type, or a composite whose function slot is nil or another such value */
void h_not_function(void) {
	static const char *const things[] = {"(in0)", "\"s\"", "(__quote s)", "(__list 1)", "(__vector 1)", "(__make-type)", "(__make-instance (__make-type) 5 ())", "(__make-instance (__make-type) 5 (in0))", "(__make-instance (__make-type) (__lambda (x) x) 3)"};
	vt_open(1);
	unsigned long k = vt_pick(9), way = vt_pick(2);
	vt_inputs[0] = vt_value(4);
	P("((__var f "); P(things[k]); P(way ? ") (__apply f (__list 1)))" : ") (__funcall f 1))");
	VT_ASSERT(vt_run(), "calling something that is not a function is an error");
	VT_ASSERT(!duckVM_softReset(&VM), "the VM can be reset");
	VT_ASSERT(vt_same(vt_value_of("((__defun ok (x) (__+ x 1)) (ok 4))"), vI(5)), "the VM works after the error");
	VT_REACH("end");
}
/* @q configs=default,inference | the last argument of apply is an arbitrary Integer, Boolean or double instead of a list */
void h_apply_nonlist(void) {
	vt_open(1);
	vt_inputs[0] = vt_value(3);
	P("((__defun f (&rest r) 1) (__apply f 4 (in0)))");
	VT_ASSERT(vt_run(), "apply needs a list");
	VT_ASSERT(!duckVM_softReset(&VM), "the VM can be reset");
	VT_ASSERT(vt_same(vt_value_of("((__defun ok (x) (__+ x 1)) (ok 4))"), vI(5)), "the VM works after the error");
	VT_REACH("end");
}
