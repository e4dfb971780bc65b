/* Lists and vectors: histories of operations on shared cells against a reference heap. */
#include "vt_dl.h"

/* ---- lists ---- */
typedef struct { V car; int list; int cdr; } cell;      /* list: the car is a list; then car.i is its first cell or -1 */
static cell cells[16];
static int ncells, lv[2];                               /* lv: first cell of each variable, -1 for nil */
static const char *const names[] = {"a", "b"};
static int used;                                        /* inputs consumed */
static void input(void) { P("(in"); PU(used); P(")"); used++; }
static int fresh(V car, int list, int cdr) { cells[ncells].car = car; cells[ncells].list = list; cells[ncells].cdr = cdr; return ncells++; }

/* The value of an element, as (out ..) sees it. */
static V seen(int c) { if (c < 0) return vN(); if (cells[c].list) { V v = vN(); v.i = cells[c].car.i >= 0; return v; } return cells[c].car; }
static int tail(int c) { return c < 0 ? -1 : cells[c].cdr; }
static void dump_text(const char *v) {
	P("(out "); P(v); P(") (out (__null? "); P(v); P(")) (out (__car "); P(v); P(")) (out (__car (__cdr "); P(v); P("))) (out (__car (__cdr (__cdr "); P(v); P(")))) ");
}
static void check_list(int k, int c) {
	V l = vN(); l.i = c >= 0;
	VT_ASSERT(vt_same(vt_out[k], l), "a list is nil exactly when it has no cells");
	VT_ASSERT(vt_same(vt_out[k + 1], vB(c < 0)), "null? of a list");
	VT_ASSERT(vt_same(vt_out[k + 2], seen(c)), "the first element of a list");
	VT_ASSERT(vt_same(vt_out[k + 3], seen(tail(c))), "the second element of a list");
	VT_ASSERT(vt_same(vt_out[k + 4], seen(tail(tail(c)))), "the third element of a list");
}
/* One operation; 0 when it must fail. */
static int list_op(unsigned long op) {
	int v = op & 1, w = (op >> 1) & 1;
	const char *V_ = names[v], *W = names[w];
	switch (op >> 2) {
	case 0: P("(__setq "); P(V_); P(" (__cons "); input(); P(" "); P(W); P(")) "); lv[v] = fresh(vt_inputs[used - 1], 0, lv[w]); return 1;
	case 1: P("(__setq "); P(V_); P(" (__cdr "); P(W); P(")) "); lv[v] = tail(lv[w]); return 1;
	case 2: P("(__set-cdr "); P(V_); P(" "); P(W); P(") "); if (lv[v] < 0) return 0; cells[lv[v]].cdr = lv[w]; return 1;
	case 3: P("(__set-car "); P(V_); P(" "); P(W); P(") "); if (lv[v] < 0) return 0; cells[lv[v]].list = 1; cells[lv[v]].car = vI(lv[w]); return 1;
	case 4:
		P("(__set-car "); P(V_); P(" "); input(); P(") ");
		if (lv[v] < 0) return 0;
		cells[lv[v]].list = 0; cells[lv[v]].car = vt_inputs[used - 1];
		if (w) { P("(__setq "); P(V_); P(" (__cons "); P(V_); P(" "); P(V_); P(")) "); V c = vI(lv[v]); lv[v] = fresh(c, 1, lv[v]); }
		return 1;
	default: P("(__setq "); P(V_); P(" (__cons "); P(W); P(" "); P(names[!w]); P(")) "); lv[v] = fresh(vI(lv[w]), 1, lv[!w]); return 1;
	}
}
static void expect_error(const char *why) {
	dl_error_t e = vt_compile();
	VT_ASSERT(!e, "the program compiles");
	e = duckVM_execute(&VM, vt_bc, vt_bcn);
	vt_free_bc();
	VT_ASSERT(e, "an operation outside its domain is an error");
	VT_ASSERT(!duckVM_softReset(&VM), "the VM can be reset");
	VT_ASSERT(vt_same(vt_value_of("((__defun ok (x) (__+ x 1)) (ok 4))"), vI(5)), "the VM works after the error");
}
static void list_history(int from, int to, int steps, int initial) {
	vt_open(7);
	vt_open_out();
	for (int i = 0; i < 7; i++) vt_inputs[i] = vI((long) vt_draw());
	ncells = used = 0;
	vt_n = 0;
	int ok = 1;
	switch (initial) {
	case 0: P("((__var a ()) (__var b ()) "); lv[0] = lv[1] = -1; break;
	case 1: P("((__var a (__list "); input(); P(" "); input(); P(" "); input(); P(")) (__var b (__cdr a)) "); lv[0] = fresh(vt_inputs[0], 0, fresh(vt_inputs[1], 0, fresh(vt_inputs[2], 0, -1))); lv[1] = tail(lv[0]); break;
	default: P("((__var a (__list "); input(); P(")) (__var b (__list "); input(); P(" "); input(); P(")) "); lv[0] = fresh(vt_inputs[0], 0, -1); lv[1] = fresh(vt_inputs[1], 0, fresh(vt_inputs[2], 0, -1)); break;
	}
	for (int s = 0; s < steps && ok; s++) ok = list_op(s ? vt_pick(24) : from + vt_pick(to - from));
	dump_text("a"); dump_text("b");
	P("(out (__= a b)) 5)");
	if (!ok) { expect_error("set on nil"); VT_REACH("error"); return; }
	VT_ASSERT(vt_same(vt_value_of(0), vI(5)), "the value of the program");
	VT_ASSERT(vt_nout == 11, "everything is reported");
	check_list(0, lv[0]);
	check_list(5, lv[1]);
	VT_ASSERT(vt_same(vt_out[10], vB(lv[0] == lv[1])), "two lists are equal only if they are the same list");
	VT_REACH("end");
}
/* @q configs=default tconfigs=default,no-optimize,inference max=120 reach=end,error | every history of 2 operations out of 24 (cons, cdr, set-car, set-cdr, sharing and nesting) on two variables, from 3 initial states, arbitrary Integer elements */
void h_list2(void) { unsigned long i = vt_pick(3); list_history(0, 24, 2, i); }
/* @q configs=default max=120 tmax=300 reach=end,error | every history of 3 operations starting with a cons or cdr, from overlapping lists */
void h_list3a(void) { list_history(0, 8, 3, 1); }
/* @q configs=default max=120 tmax=300 reach=end | every history of 3 operations starting with a set-cdr or set-car, from overlapping lists */
void h_list3b(void) { list_history(8, 16, 3, 1); }
/* @q configs=default max=120 tmax=300 reach=end | every history of 3 operations starting with a set-car of a number or a nesting cons, from overlapping lists */
void h_list3c(void) { list_history(16, 24, 3, 1); }
/* @q configs=default tier=thorough tmax=300 reach=end,error | every history of 3 operations from two separate lists */
void h_list3d(void) { list_history(0, 24, 3, 2); }
/* @q configs=default tier=thorough tmax=300 reach=end | every history of 3 operations from empty lists */
void h_list3e(void) { list_history(0, 24, 3, 0); }

/* @q configs=default,inference tconfigs=default,inference,no-optimize | list of 0 to 5 arbitrary values (Integer, Boolean, double, nil): length, every element in order, then nil */
void h_list_order(void) {
	vt_open(5);
	vt_open_out();
	unsigned long n = vt_pick(6);
	for (unsigned long i = 0; i < n; i++) vt_inputs[i] = vt_value(4);
	vt_n = 0;
	P("((__var l (__list"); for (unsigned long i = 0; i < n; i++) { P(" (in"); PU(i); P(")"); }
	P(")) (__var n (__length l)) (__while l (out (__car l)) (__setq l (__cdr l))) n)");
	VT_ASSERT(vt_same(vt_value_of(0), vI(n)), "length of a list");
	VT_ASSERT(vt_nout == (int) n, "every element is there");
	for (unsigned long i = 0; i < n; i++) VT_ASSERT(vt_same(vt_out[i], vt_inputs[i]), "elements keep their order");
	VT_REACH("end");
}
/* @q configs=default | cons of two arbitrary scalars keeps both; length of a circular list is an error and length of a dotted list counts its cells */
void h_dotted(void) {
	vt_open(2);
	vt_open_out();
	vt_inputs[0] = vt_value(3);
	vt_inputs[1] = vt_value(3);
	unsigned long k = vt_pick(4);
	if (k < 2) {
		VT_ASSERT(vt_same(vt_value_of(k ? "((__var c (__cons (in0) 4)) (__set-cdr c (in1)) (out (__car c)) (out (__cdr c)) (__length c))" : "((__var c (__cons (in0) (in1))) (out (__car c)) (out (__cdr c)) (__length c))"), vI(1)), "cells of a dotted pair");
		VT_ASSERT(vt_nout == 2 && vt_same(vt_out[0], vt_inputs[0]) && vt_same(vt_out[1], vt_inputs[1]), "a pair keeps its two values");
	} else {
		vt_n = 0;
		P(k == 2 ? "((__var c (__list 1 2 3)) (__set-cdr (__cdr (__cdr c)) c) (__length c))" : "((__var c (__list 1 2 3)) (__set-cdr (__cdr (__cdr c)) (__cdr (__cdr c))) (__length c))");
		expect_error("circular");
	}
	VT_REACH("end");
}

/* ---- vectors ---- */
static V vec[2][4];
static int veclen[2], vo[2], vi_[2];                    /* variable: vector number and offset; vi_ -1: no storage */
static int vlen(int v) { return vi_[v] < 0 || vo[v] >= veclen[vi_[v]] ? 0 : veclen[vi_[v]] - vo[v]; }
/* 1: fine, 0: must fail */
static int vec_op(unsigned long op) {
	int v = op & 1, w = (op >> 1) & 1;
	V x, i;
	switch (op >> 2) {
	case 0:
		P("(__setq "); P(names[v]); P(" (__cdr "); P(names[w]); P(")) ");
		if (vlen(w) <= 1) { vi_[v] = -1; vo[v] = 0; } else { vi_[v] = vi_[w]; vo[v] = vo[w] + 1; }
		return 1;
	case 1:
		P("(__set-car "); P(names[v]); P(" "); input(); P(") ");
		if (vlen(v) == 0) return 0;
		vec[vi_[v]][vo[v]] = vt_inputs[used - 1];
		if (w) P("(out 0) ");
		return 1;
	case 2:
		P("(__set-cdr "); P(names[v]); P(w ? " (__vector)) " : " ()) ");
		if (vlen(v) == 0) return 0;
		veclen[vi_[v]] = vo[v] + 1;
		return 1;
	case 3:
		if (w) {
			P("(__setq "); P(names[v]); P(" (__make-vector 2 "); input(); P(")) ");
			vi_[v] = v; veclen[v] = 2; vo[v] = 0;
			/* only meaningful while no other variable uses that storage */
			VT_ASSUME(vi_[!v] != v);
			vec[v][0] = vec[v][1] = vt_inputs[used - 1];
			return 1;
		}
		P("(out (__get-vector-element "); P(names[v]); P(" "); input(); P(")) ");
		i = vt_inputs[used - 1];
		return (unsigned long) i.i < (unsigned long) vlen(v);
	default:
		P("(__set-vector-element "); P(names[v]); P(" "); input(); P(" "); input(); P(") ");
		i = vt_inputs[used - 2]; x = vt_inputs[used - 1];
		if ((unsigned long) i.i >= (unsigned long) vlen(v)) return 0;
		vec[vi_[v]][vo[v] + vt_concrete(i.i)] = x;
		return 1;
	}
}
static void check_vec(int k, int v) {
	int n = vlen(v);
	VT_ASSERT(vt_same(vt_out[k], vI(n)), "length of a vector");
	VT_ASSERT(vt_same(vt_out[k + 1], vB(n == 0)), "null? of a vector");
	for (int i = 0; i < 3; i++) {
		if (i < n) VT_ASSERT(vt_same(vt_out[k + 2 + i], vec[vi_[v]][vo[v] + i]), "an element of a vector");
		else VT_ASSERT(vt_out[k + 2 + i].t == duckVM_object_type_vector, "past its end a vector yields the empty vector");
	}
}
static void vec_history(int from, int to, int steps) {
	vt_open(9);
	vt_open_out();
	for (int i = 0; i < 9; i++) vt_inputs[i] = vI((long) vt_draw());
	used = 0;
	vt_n = 0;
	P("((__var a (__vector "); input(); P(" "); input(); P(" "); input(); P(")) (__var b (__cdr a)) ");
	for (int i = 0; i < 3; i++) vec[0][i] = vt_inputs[i];
	veclen[0] = 3; vi_[0] = vi_[1] = 0; vo[0] = 0; vo[1] = 1;
	int ok = 1, outs = 0;
	V want[8];
	for (int s = 0; s < steps && ok; s++) {
		unsigned long op = s ? vt_pick(18) : from + vt_pick(to - from);
		int before = used;
		ok = vec_op(op);
		if (op >> 2 == 3 && !(op & 2) && ok) want[outs++] = vec[vi_[op & 1]][vo[op & 1] + vt_concrete(vt_inputs[before].i)];
		if (op >> 2 == 1 && (op & 2)) want[outs++] = vI(0);
	}
	for (int v = 0; v < 2; v++) {
		P("(out (__length "); P(names[v]); P(")) (out (__null? "); P(names[v]); P(")) (out (__car "); P(names[v]); P(")) (out (__car (__cdr "); P(names[v]); P("))) (out (__car (__cdr (__cdr "); P(names[v]); P(")))) ");
	}
	P("5)");
	if (!ok) { expect_error("bounds"); VT_REACH("error"); return; }
	VT_ASSERT(vt_same(vt_value_of(0), vI(5)), "the value of the program");
	VT_ASSERT(vt_nout == 10 + outs, "everything is reported");
	for (int k = 0; k < outs; k++) VT_ASSERT(vt_same(vt_out[k], want[k]), "the element that is read is the one last stored there");
	check_vec(outs, 0);
	check_vec(outs + 5, 1);
	VT_REACH("end");
}
/* @q configs=default tconfigs=default,inference,no-optimize max=120 reach=end,error | every history of 2 vector operations (cdr, set-car, truncating set-cdr, make-vector, element read and write at an arbitrary 64-bit index) on two overlapping vectors */
void h_vec2(void) { vec_history(0, 18, 2); }
/* @q configs=default max=120 tmax=300 reach=end,error | every history of 3 vector operations starting with cdr or set-car */
void h_vec3a(void) { vec_history(0, 8, 3); }
/* @q configs=default max=120 tmax=300 reach=end,error | every history of 3 vector operations starting with truncation, element access or make-vector */
void h_vec3b(void) { vec_history(8, 18, 3); }

/* @q configs=default tconfigs=default,portable tmax=300 reach=end,error | get-vector-element on a vector of 0 to 4 arbitrary values at an arbitrary 64-bit index, directly or after 0 to 2 cdrs */
void h_vec_get(void) {
	vt_open(5);
	unsigned long n = vt_pick(5), skip = vt_pick(3);
	long i = (long) vt_draw();
	for (unsigned long k = 0; k < n; k++) vt_inputs[k] = vt_value(2);
	vt_inputs[4] = vI(i);
	vt_n = 0;
	P("((__var v (__vector"); for (unsigned long k = 0; k < n; k++) { P(" (in"); PU(k); P(")"); }
	P(")) (__get-vector-element "); for (unsigned long k = 0; k < skip; k++) P("(__cdr "); P("v"); for (unsigned long k = 0; k < skip; k++) P(")"); P(" (in4)))");
	unsigned long len = skip >= n ? 0 : n - skip;
	if ((unsigned long) i >= len) { expect_error("index"); VT_REACH("error"); return; }
	VT_ASSERT(vt_same(vt_value_of(0), vt_inputs[skip + vt_concrete(i)]), "the element at the index");
	VT_REACH("end");
}
/* @q configs=default reach=end,error | make-vector of an arbitrary length from the smallest Integer to 4 filled with an arbitrary scalar: length and elements, or an error when negative; elements are then independent */
void h_make_vector(void) {
	vt_open(3);
	vt_open_out();
	long n = (long) vt_draw();
	VT_ASSUME(n <= 4);
	vt_inputs[0] = vI(n);
	vt_inputs[1] = vt_value(4);
	vt_inputs[2] = vI((long) vt_draw());
	vt_n = 0;
	P("((__var v (__make-vector (in0) (in1))) (__var i 0) (__while (__< i (__length v)) (out (__get-vector-element v i)) (__setq i (__+ i 1))) (__if (__< 1 (__length v)) ((__set-vector-element v 1 (in2)) (out (__get-vector-element v 0)) (out (__get-vector-element v 1))) 0) (__length v))");
	if (n < 0) { expect_error("length"); VT_REACH("error"); return; }
	n = vt_concrete(n);
	VT_ASSERT(vt_same(vt_value_of(0), vI(n)), "length of a new vector");
	VT_ASSERT(vt_nout == (n > 1 ? n + 2 : n), "every element exists");
	for (int k = 0; k < n; k++) VT_ASSERT(vt_same(vt_out[k], vt_inputs[1]), "every element is the fill value");
	if (n > 1) VT_ASSERT(vt_same(vt_out[n], vt_inputs[1]) && vt_same(vt_out[n + 1], vt_inputs[2]), "only the assigned element changes");
	VT_REACH("end");
}
/* @q configs=default,inference | car, cdr, length, set-car, set-cdr, vector element access on an arbitrary Integer, Boolean or double, a symbol, a type, a composite, a function; set-car and set-cdr on nil: errors, VM usable */
void h_not_sequence(void) {
	static const char *const things[] = {"(in0)", "(__quote s)", "(__make-type)", "(__make-instance (__make-type) 5 ())", "(__lambda (x) x)"};
	static const char *const ops[] = {"(__car x)", "(__cdr x)", "(__length x)", "(__set-car x 1)", "(__set-cdr x ())", "(__get-vector-element x 0)", "(__set-vector-element x 0 1)"};
	vt_open(1);
	vt_inputs[0] = vt_value(3);
	unsigned long k = vt_pick(8);
	vt_n = 0;
	if (k == 7) P(vt_pick(2) ? "((__var x ()) (__set-car x 1))" : "((__var x ()) (__set-cdr x ()))");
	else { P("((__var x "); P(things[vt_pick(5)]); P(") "); P(ops[k]); P(")"); }
	expect_error("type");
	VT_REACH("end");
}
