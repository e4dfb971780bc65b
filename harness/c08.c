/* Global variables across separate compilations and executions. */
#include "vt_dl.h"

static const char *const names[] = {"g", "longer-global"};
static int defined[2], fdefined;
static V val[2];
static void must_fail(const char *s) {
	dl_size_t before = duckVM_stackLength(&VM);
	if (s) { vt_n = 0; P(s); }
	VT_ASSERT(vt_run(), "using an undefined global is an error");
	VT_ASSERT(!duckVM_softReset(&VM), "the VM can be reset");
	(void) before;
}
static long key(int v) { return duckLisp_symbol_nameToValue(&DLC, (dl_uint8_t *) names[v], strlen(names[v])); }
/* One execution. k in 0..19: 2 variables times 10 actions. */
static void step(unsigned long k, int in) {
	int v = k & 1;
	const char *n = names[v];
	V x;
	vt_n = 0;
	switch (k >> 1) {
	case 0: P("(__global "); P(n); P(" (in"); PU(in); P("))"); VT_ASSERT(vt_same(vt_value_of(0), vt_inputs[in]), "a definition returns its value"); defined[v] = 1; val[v] = vt_inputs[in]; break;
	case 1: P("(__setq "); P(n); P(" (in"); PU(in); P("))"); VT_ASSERT(vt_same(vt_value_of(0), vt_inputs[in]), "an assignment returns its value"); defined[v] = 1; val[v] = vt_inputs[in]; break;
	case 2: P(n); if (!defined[v]) { must_fail(0); break; } VT_ASSERT(vt_same(vt_value_of(0), val[v]), "a global keeps its value"); break;
	case 3: P("((__var y "); P(n); P(") (__setq "); P(n); P(" (in"); PU(in); P(")) (__setq "); P(n); P(" y) y)"); if (!defined[v]) { must_fail(0); break; } VT_ASSERT(vt_same(vt_value_of(0), val[v]), "a global keeps its value"); break;
	case 4: /* a function that assigns the other global */
		P("(__global f (__lambda (x) (__setq "); P(n); P(" x) 3))"); VT_ASSERT(!vt_run(), "a function can be bound to a global"); VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied"); fdefined = v + 1; break;
	case 5: P("(f (in"); PU(in); P("))"); if (!fdefined) { must_fail(0); break; } VT_ASSERT(vt_same(vt_value_of(0), vI(3)), "a global function can be called"); defined[fdefined - 1] = 1; val[fdefined - 1] = vt_inputs[in]; break;
	case 6: /* locals of the same name do not touch the global */
		P("((__var "); P(n); P(" (in"); PU(in); P(")) (__setq "); P(n); P(" 6) "); P(n); P(")"); VT_ASSERT(vt_same(vt_value_of(0), vI(6)), "a local shadows a global"); break;
	case 7: if (v) { VT_ASSERT(!duckVM_garbageCollect(&VM), "garbage is collected"); } else { VT_ASSERT(vt_do("(__car 1)"), "an error"); VT_ASSERT(!duckVM_softReset(&VM), "the VM can be reset"); } break;
	case 8:
		VT_ASSERT(!vt_push(&VM, vt_inputs[in]), "the host pushes a value");
		VT_ASSERT(!duckLisp_symbol_create(&DLC, (dl_uint8_t *) n, strlen(n)), "the name is known");
		VT_ASSERT(!duckVM_setGlobal(&VM, key(v)), "the host sets a global");
		VT_ASSERT(!duckVM_setInteger(&VM, 99) || 1, "the stack value is independent");
		VT_ASSERT(!duckVM_pop(&VM), "the host pops");
		defined[v] = 1; val[v] = vt_inputs[in];
		break;
	default:
		if (!defined[v]) { VT_ASSERT(duckVM_pushGlobal(&VM, key(v)), "an undefined global cannot be read"); VT_ASSERT(!duckVM_softReset(&VM), "the VM can be reset"); break; }
		VT_ASSERT(!duckVM_pushGlobal(&VM, key(v)), "the host reads a global");
		x = vt_top(&VM);
		VT_ASSERT(vt_same(x, val[v]), "the host reads the current value");
		VT_ASSERT(!duckVM_pop(&VM), "the host pops");
		break;
	}
}
static void history(int from, int to, int steps) {
	vt_open(3);
	for (int i = 0; i < 3; i++) vt_inputs[i] = vI((long) vt_draw());
	defined[0] = defined[1] = fdefined = 0;
	for (int s = 0; s < steps; s++) step(s ? vt_pick(20) : from + vt_pick(to - from), s);
	for (int v = 0; v < 2; v++) {
		vt_n = 0;
		P(names[v]);
		if (defined[v]) VT_ASSERT(vt_same(vt_value_of(0), val[v]), "a global holds the value last given to it");
		else must_fail(0);
	}
	vt_close();
	VT_REACH("end");
}
/* @q configs=default,inference tconfigs=default,inference,no-optimize | every history of 2 executions or host actions out of 20 on two globals, arbitrary Integers */
void h_two(void) { history(0, 20, 2); }
/* @q configs=default max=120 tmax=300 | every history of 3 starting with a definition, an assignment or a read */
void h_three_a(void) { history(0, 8, 3); }
/* @q configs=default max=120 tmax=300 | every history of 3 starting with a function, a local, an error or a collection */
void h_three_b(void) { history(8, 16, 3); }
/* @q configs=default max=120 tmax=300 | every history of 3 starting with a host action */
void h_three_c(void) { history(16, 20, 3); }
/* @q configs=default tier=thorough tmax=700 | every history of 4 starting with a function or a local */
void h_four(void) { history(8, 12, 4); }

/* @q configs=default,inference,no-optimize | an arbitrary value of 7 kinds stored in a global in one execution is the same in the next, after a collection */
void h_kinds(void) {
	static const char *const things[] = {"(in0)", "(__list (in0) (in1))", "(__vector (in0) (in1))", "(__cons (in0) (in1))", "(__make-instance (__make-type) (in0) (in1))", "\"text\"", "(__lambda () (in0))"};
	static const char *const first[] = {"x", "(__car x)", "(__car x)", "(__car x)", "(__composite-value x)", "(__length x)", "(x)"};
	static const char *const second[] = {"x", "(__car (__cdr x))", "(__car (__cdr x))", "(__cdr x)", "(__composite-function x)", "(__get-vector-element x 3)", "(__funcall x)"};
	vt_open(2);
	unsigned long k = vt_pick(7);
	vt_inputs[0] = k ? vI((long) vt_draw()) : vt_value(4);
	vt_inputs[1] = vI((long) vt_draw());
	vt_n = 0;
	P("(__global x "); P(things[k]); P(")");
	VT_ASSERT(!vt_run(), "the global is defined");
	VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
	VT_ASSERT(!duckVM_garbageCollect(&VM), "garbage is collected");
	VT_ASSERT(vt_same(vt_value_of(first[k]), k == 5 ? vI(4) : vt_inputs[0]), "first part of the value");
	VT_ASSERT(vt_same(vt_value_of(second[k]), k == 5 ? vI('t') : k == 6 || k == 0 ? vt_inputs[0] : vt_inputs[1]), "second part of the value");
	vt_close();
	VT_REACH("end");
}
/* @q configs=default tconfigs=default,inference | closures bound to globals share the variable they captured across executions: every sequence of 4 calls of (add x), (get), (set x) with arbitrary Integers */
void h_counter(void) {
	vt_open(4);
	for (int i = 0; i < 4; i++) vt_inputs[i] = vI((long) vt_draw());
	VT_ASSERT(!vt_do("((__var n 10) (__global add (__lambda (x) (__setq n (__+ n x)) n)) (__global get (__lambda () n)) (__global set (__lambda (x) (__setq n x))))"), "the functions are defined");
	VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
	long n = 10;
	for (int i = 0; i < 4; i++) {
		unsigned long k = vt_pick(3);
		vt_n = 0;
		if (k == 0) { P("(add (in"); PU(i); P("))"); n += vt_inputs[i].i; }
		else if (k == 1) P("(get)");
		else { P("(set (in"); PU(i); P("))"); n = vt_inputs[i].i; }
		VT_ASSERT(vt_same(vt_value_of(0), vI(n)), "the captured variable keeps its value");
		if (i == 1) VT_ASSERT(!duckVM_garbageCollect(&VM), "garbage is collected");
	}
	vt_close();
	VT_REACH("end");
}
/* A global is assigned at depth locals + temporaries of a function, a scope or compile-time code, after `symbols` other names were used. */
static void depths(int symbols, int maxlocals) {
	char nm[8];
	vt_open(1);
	vt_inputs[0] = vI((long) vt_draw());
	for (int i = 0; i < symbols; i++) {
		nm[0] = 's'; nm[1] = 'a' + i / 26; nm[2] = 'a' + i % 26;
		VT_ASSERT(!duckLisp_symbol_create(&DLC, (dl_uint8_t *) nm, 3), "a symbol is created");
	}
	unsigned long where = vt_pick(4), n = vt_pick(maxlocals + 1), m = vt_pick(3), op = vt_pick(2);
	vt_n = 0;
	P("((__setq g 1) ");
	if (where == 1) P("(__funcall (__lambda () ");
	if (where == 2) P("(__comptime (__setq g 2) ");
	if (where == 3) P("((__defmacro m () (__setq g 2) ");
	P("(");
	for (unsigned long i = 0; i < n; i++) { P("(__var v"); PU(i); P(" "); PU(i); P(") "); }
	for (unsigned long i = 0; i < m; i++) P("(__+ 5 ");
	P(op ? "(__setq g " : "(__global g ");
	P(where < 2 ? "(in0))" : "77)");
	for (unsigned long i = 0; i < m; i++) P(")");
	P(" g)");
	if (where == 1) P("))");
	if (where == 2) P(")");
	if (where == 3) P(") (m))");
	P(")");
	/* A definition that is an argument is not claimed. */
	if (!op && m) return;
	V want = where < 2 ? vt_inputs[0] : vI(77);
	VT_ASSERT(vt_same(vt_value_of(0), want), "a global has the value last given to it");
	VT_ASSERT(vt_same(vt_value_of("(__+ g 0)"), where < 2 ? want : vI(1)), "a global has the value last given to it");
	VT_REACH("end");
}
/* @q configs=default,inference tconfigs=default,inference,no-optimize | a global assigned or defined after 0 to 9 local variables and 0 to 2 pending operands, at top level, in compile-time code and in a macro */
void h_depths(void) { depths(0, 9); }
/* @q configs=default tconfigs=default,no-optimize | the same after 300 other names are in use (wide global keys) */
void h_wide(void) { depths(300, 2); }
