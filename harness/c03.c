/* Conditionals, loops, sequencing, assignment and lexical scoping: every small program against a reference interpreter. */
#include "vt_prog.h"
static const int kinds[] = {K_ADD, K_LT, K_NOT, K_IF, K_WHEN, K_UNLESS, K_SETQ, K_SCOPE, K_WHILE, K_NOSCOPE};
/* @q configs=default,no-optimize,inference tconfigs=default,no-optimize,portable,inference max=60 | every program of at most 1 operator (+ < not if when unless setq scope while noscope), each operand any of 4 (variables, input, literal), two variables in scope; inputs any 64-bit Integers; loops of 0 to 2 rounds */
void h_one(void) { vt_program(kinds, 10, 1, 1, 2, 3, -1); }
/* @q configs=default,no-optimize max=60 | every program of at most 2 such operators, operands taken in turn from variables, input and literal; inputs any 64-bit Integers; loops of 0 to 2 rounds */
void h_two(void) { vt_program(kinds, 10, 2, 0, 2, 3, -1); }
/* @q configs=default,no-optimize max=20 tmax=60 | the condition of if/when/unless/while is an arbitrary Boolean, Integer, double or nil, or a non-empty list, String, vector, an empty vector, an empty or non-empty vector tail, a Symbol or a closure; also as the result of not */
void h_truth(void) {
	static const char *const things[] = {"(__list 1)", "\"s\"", "(__vector 1)", "(__quote s)", "(__lambda () 0)", "(__vector)", "(__cdr (__vector 1))", "(__cdr (__vector 1 2))"};
	unsigned long form, x;
	vt_open(2);
	form = vt_pick(5); x = vt_pick(9);
	V a = vt_inputs[0] = x < 8 ? vB(x != 5 && x != 6) : vt_value(4);
	int t = truthy(a);
	P("((__var x "); P(x < 8 ? things[x] : "(in0)"); P(") ");
	switch (form) {
	case 0: P("(__if x 11 12))"); break;
	case 1: P("(__when x 10 11))"); break;
	case 2: P("(__unless x 10 11))"); break;
	case 3: P("(__var n 12) (__while x (__setq n 11) (__setq x false)) n)"); break;
	default: P("(__if (__not x) 12 11))"); if (x == 1 || x == 3 || x == 4) return; break;
	}
	V want = form == 1 && !t ? vN() : form == 2 ? (t ? vN() : vI(11)) : vI(t ? 11 : 12);
	VT_ASSERT(vt_same(vt_value_of(0), want), "what counts as true");
	VT_REACH("end");
}
/* @q configs=default,inference max=20 tmax=60 | conditions that are Boolean, Integer (0 to 99, either sign, hexadecimal, beyond one byte), Float (0.0 to 9.9 of 4 digits, exponents, either sign), nil, symbol, list and vector literals */
void h_literal_condition(void) {
	unsigned long form, k;
	int t;
	vt_open(1);
	form = vt_pick(5); k = vt_pick(11);
	P(form == 0 ? "((__if " : form == 1 ? "((__when " : form == 2 ? "((__unless " : form == 3 ? "((__var n 12) (__while " : "((__if (__not ");
	if (k == 0) { t = 1; P("true"); }
	else if (k == 1) { t = 0; P("false"); }
	else if (k == 2) { long d = vt_range(0, 9), c = vt_range(0, 9); if (vt_pick(2)) PC('-'); PC('0' + d); PC('0' + c); t = d + c > 0; }
	else if (k == 3) { static const char ds[] = {0, 1, 5, 9}; long d = ds[vt_pick(4)], c = ds[vt_pick(4)]; if (vt_pick(2)) PC('-'); PC('0' + d); PC('.'); PC('0' + c); t = d + c > 0; }
	else if (k == 4) { t = 1; P(vt_pick(2) ? "-2.5e-3" : "2.5e3"); }
	else if (k == 5) { long d = vt_range(0, 9); P(vt_pick(2) ? "-0x0" : "0x"); PC('0' + d); t = d > 0; }
	else if (k == 6) { static const char *const n[] = {"128", "256", "-256", "65536", "-65536", "16777216", "512"}; t = 1; P(n[vt_pick(7)]); }
	else if (k == 7) { t = 0; P("()"); }
	else if (k == 8) { t = 0; P("(__vector)"); }
	else if (k == 9) { t = 1; P("(__list 0)"); }
	else { t = 1; P("(__quote a)"); }
	if (form == 3 && t) return; /* would not end */
	P(form == 0 ? " 11 12))" : form < 3 ? " 10 11))" : form == 3 ? " (__setq n 11)) n)" : ") 12 11))");
	if (form == 4 && (k == 9 || k == 10)) return; /* not of these is not claimed */
	V want = form == 1 && !t ? vN() : form == 2 ? (t ? vN() : vI(11)) : vI(t ? 11 : 12);
	VT_ASSERT(vt_same(vt_value_of(0), want), "a literal condition");
	VT_REACH("end");
}
/* An endless loop in a branch: taken it runs until something fails, not taken it changes nothing. */
static int endless_n;
static dl_error_t cb_stop(duckVM_t *vm) { endless_n++; return endless_n == 3 ? dl_error_invalidValue : duckVM_pushInteger(vm); }
/* X: the loop; the condition c is (in1); the value is 7 or nil when the loop is not entered. */
static const char *const endless_branch[] = {"(__if c X 7)", "(__if (__not c) 7 X)", "(__if c (X) (7))", "(__if c (4 X 5) 7)", "(__if (__not c) ((__var u 1) 7) ((__var u 1) X))", "(__when c X)", "(__unless (__not c) 3 X)",
	"(__when c X 3)", "(__while c X)", "(__while c X (__setq c false))", "(__if c (__if c X 5) (__if c X 7))", "(__funcall (__lambda () (__if c X 7)))", "(__if c (__list 1 X 2) 7)", "(__if c ((__setq d X)) 7)"};
static const int endless_nil[] = {0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 0, 0, 0, 0};
static const char *const endless_loop[] = {"(__while true (stop))", "(__while 1 (__var q (stop)) q)", "(__while -2.5 (__if c (stop) 0))", "(__while true (__while c (stop)))"};
static const char *const endless_at[] = {"B", "(__car (__cdr (__list d B 8)))", "((__var x B) (__var y d) x)", "(__cdr (__cons d B))", "((__var x (__list d B d)) (__set-car x 1) (__car (__cdr x)))",
	"(__funcall (__lambda (y &rest r) (__car r)) d B d)", "((__var g (__lambda () d)) (__var x B) (__funcall g) x)", "((__setq d B) d)", "((__global zz B) zz)", "(__get-vector-element (__vector d B d) 1)"};
/* @q configs=default,no-optimize,inference max=60 | 4 endless loops in 14 branches of conditionals and loops in 10 surrounding forms: taken the body runs until it fails, not taken the value is that of the other branch; the condition is any 64-bit Integer */
void h_endless(void) {
	unsigned long b, l, at;
	vt_open(2);
	VT_ASSERT(!vt_link("stop", cb_stop, "()"), "callback links");
	b = vt_pick(14); l = vt_pick(4); at = vt_pick(10);
	vt_inputs[0] = vI((long) vt_draw()); vt_inputs[1] = vI((long) vt_draw());
	endless_n = 0;
	P("((__var d (in0)) (__var c (in1)) ");
	for (const char *p = endless_at[at]; *p; p++) {
		if (*p != 'B') { PC(*p); continue; }
		for (const char *q = endless_branch[b]; *q; q++) {
			if (*q != 'X') PC(*q);
			else P(endless_loop[l]);
		}
	}
	P(")");
	VT_ASSERT(!vt_compile(), "the program compiles");
	dl_error_t e = duckVM_execute(&VM, vt_bc, vt_bcn);
	vt_free_bc();
	if (vt_inputs[1].i != 0) { VT_ASSERT(e && endless_n == 3, "the loop runs until its body fails"); VT_REACH("taken"); return; }
	VT_ASSERT(!e && endless_n == 0, "the loop is not entered");
	VT_ASSERT(vt_same(vt_top(&VM), endless_nil[b] ? vN() : vI(7)), "an endless loop that is not entered changes nothing");
	VT_REACH("end");
}
/* @q max=150 tier=quick configs=default tconfigs=default,no-optimize | every program of 3 such operators with add at the root, operands taken in turn */
void h_three_add(void) { vt_program(kinds, 10, 3, 0, 2, 3, K_ADD); }
/* @q max=150 tier=quick configs=default tconfigs=default,no-optimize | every program of 3 such operators with lt at the root, operands taken in turn */
void h_three_lt(void) { vt_program(kinds, 10, 3, 0, 2, 3, K_LT); }
/* @q max=150 tier=quick configs=default tconfigs=default,no-optimize | every program of 3 such operators with not at the root, operands taken in turn */
void h_three_not(void) { vt_program(kinds, 10, 3, 0, 2, 3, K_NOT); }
/* @q max=150 tier=quick configs=default tconfigs=default,no-optimize | every program of 3 such operators with if at the root, operands taken in turn */
void h_three_if(void) { vt_program(kinds, 10, 3, 0, 2, 3, K_IF); }
/* @q max=150 tier=quick configs=default tconfigs=default,no-optimize | every program of 3 such operators with when at the root, operands taken in turn */
void h_three_when(void) { vt_program(kinds, 10, 3, 0, 2, 3, K_WHEN); }
/* @q max=150 tier=quick configs=default tconfigs=default,no-optimize | every program of 3 such operators with unless at the root, operands taken in turn */
void h_three_unless(void) { vt_program(kinds, 10, 3, 0, 2, 3, K_UNLESS); }
/* @q max=150 tier=quick configs=default tconfigs=default,no-optimize | every program of 3 such operators with setq at the root, operands taken in turn */
void h_three_setq(void) { vt_program(kinds, 10, 3, 0, 2, 3, K_SETQ); }
/* @q max=150 tier=quick configs=default tconfigs=default,no-optimize | every program of 3 such operators with scope at the root, operands taken in turn */
void h_three_scope(void) { vt_program(kinds, 10, 3, 0, 2, 3, K_SCOPE); }
/* @q max=150 tier=quick configs=default tconfigs=default,no-optimize | every program of 3 such operators with while at the root, operands taken in turn */
void h_three_while(void) { vt_program(kinds, 10, 3, 0, 2, 3, K_WHILE); }
/* @q max=150 tier=quick configs=default tconfigs=default,no-optimize | every program of 3 such operators with noscope at the root, operands taken in turn */
void h_three_noscope(void) { vt_program(kinds, 10, 3, 0, 2, 3, K_NOSCOPE); }
/* @q tier=thorough configs=default tmax=700 | every program of 4 such operators with add at the root, operands taken in turn */
void h_four_add(void) { vt_program(kinds, 10, 4, 0, 2, 3, K_ADD); }
/* @q tier=thorough configs=default tmax=700 | every program of 4 such operators with lt at the root, operands taken in turn */
void h_four_lt(void) { vt_program(kinds, 10, 4, 0, 2, 3, K_LT); }
/* @q tier=thorough configs=default tmax=700 | every program of 4 such operators with not at the root, operands taken in turn */
void h_four_not(void) { vt_program(kinds, 10, 4, 0, 2, 3, K_NOT); }
/* @q tier=thorough configs=default tmax=700 | every program of 4 such operators with if at the root, operands taken in turn */
void h_four_if(void) { vt_program(kinds, 10, 4, 0, 2, 3, K_IF); }
/* @q tier=thorough configs=default tmax=700 | every program of 4 such operators with when at the root, operands taken in turn */
void h_four_when(void) { vt_program(kinds, 10, 4, 0, 2, 3, K_WHEN); }
/* @q tier=thorough configs=default tmax=700 | every program of 4 such operators with unless at the root, operands taken in turn */
void h_four_unless(void) { vt_program(kinds, 10, 4, 0, 2, 3, K_UNLESS); }
/* @q tier=thorough configs=default tmax=700 | every program of 4 such operators with setq at the root, operands taken in turn */
void h_four_setq(void) { vt_program(kinds, 10, 4, 0, 2, 3, K_SETQ); }
/* @q tier=thorough configs=default tmax=700 | every program of 4 such operators with scope at the root, operands taken in turn */
void h_four_scope(void) { vt_program(kinds, 10, 4, 0, 2, 3, K_SCOPE); }
/* @q tier=thorough configs=default tmax=700 | every program of 4 such operators with while at the root, operands taken in turn */
void h_four_while(void) { vt_program(kinds, 10, 4, 0, 2, 3, K_WHILE); }
/* @q tier=thorough configs=default tmax=700 | every program of 4 such operators with noscope at the root, operands taken in turn */
void h_four_noscope(void) { vt_program(kinds, 10, 4, 0, 2, 3, K_NOSCOPE); }
