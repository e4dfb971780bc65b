/* The compiler on arbitrary, mostly malformed programs. */
#define VT_MAXOBJ 400
#include "vt_dl.h"

static const char *const words[] = {
	"__declare", "__nop", "__funcall", "__apply", "__var", "__global", "__setq", "__not", "__*", "__/", "__+", "__-", "__while", "__if", "__when", "__unless",
	"__=", "__<", "__>", "__defun", "__lambda", "__defmacro", "__noscope", "__comptime", "__quote", "__list", "__vector", "__make-vector", "__get-vector-element",
	"__set-vector-element", "__cons", "__car", "__cdr", "__set-car", "__set-cdr", "__null?", "__type-of", "__make-type", "__make-instance", "__composite-value",
	"__composite-function", "__set-composite-value", "__set-composite-function", "__make-string", "__concatenate", "__substring", "__length", "__symbol-string",
	"__symbol-id", "__error", "m", "f", "x", "self", "3", "\"s\"", "()", "(x)", "true", "1.5", "g"};
#define NWORDS 61
static const char *const atoms[] = {"()", "x", "7", "(x)", "\"s\"", "(__var y 1)", "(x &rest y)", "f", "2.5", "m", "(m 1)", "true", "(x 1 y)", "(&rest)", "((x))", "self", "(self)", "(__lambda () x)"};
static const char *const pre[] = {"", "((__var x 1) (__defun f (a) a) (__defun g (a &rest b) b) (__defmacro m (a) a) ", "(__lambda (x) ", "(__comptime ", "((__defmacro m (x) ", "(__defun f (x) ", "((__var x 2) (__funcall (__lambda (y) "};
static const char *const post[] = {"", ")", ")", ")", ") (m 1))", ")", ") x))"};
/* Compiles the text; a program that compiles is executed unless it may run for ever; afterwards compiler and VM must work. */
static void total(int execute) {
	dl_error_t e = vt_compile();
	VT_ASSERT(!e || !vt_bcn, "a failed compilation gives no bytecode");
	VT_ASSERT(e || vt_bcn, "a successful compilation gives bytecode");
	if (!e) {
		VT_REACH("compiles");
		if (execute) {
			if (duckVM_execute(&VM, vt_bc, vt_bcn)) VT_REACH("runtime");
			VT_ASSERT(!duckVM_softReset(&VM), "the VM can be reset");
			VT_ASSERT(!duckVM_garbageCollect(&VM), "garbage is collected");
		}
	}
	else VT_REACH("rejected");
	vt_free_bc();
	vt_n = 0;
	VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
	VT_ASSERT(vt_same(vt_value_of("((__var k 3) (__defmacro mm (z) (__list (__quote __+) z 1)) (__defun ff (z) (__+ k (mm z))) (ff 4))"), vI(8)), "compiler and VM work afterwards");
}
static void form(unsigned long w, unsigned long c, int n, int natoms) {
	vt_open(0);
	vt_n = 0;
	P(pre[c]);
	P("("); P(words[w]);
	/* Unbounded recursion is left out: a body that calls itself, a macro whose expansion is the same macro call. */
	int calls = (c == 4) || (c == 6);
	VT_ASSUME(!calls || ((w != 53) && (w != 50)));
	VT_ASSUME((w != 12) || ((c != 3) && (c != 4)));	/* Neither are compile-time loops. */
	for (int i = 0; i < n; i++) {
		unsigned long a = vt_pick(natoms);
		VT_ASSUME(!calls || ((a != 15) && (a != 16) && (a != 9) && (a != 10)));
		PC(' '); P(atoms[a]);
	}
	P(")");
	P(post[c]);
	total(w != 12);
	VT_REACH("end");
}
static void two(unsigned long lo, unsigned long hi) { unsigned long c = vt_pick(7), w = lo + vt_pick(hi - lo); form(w, c, 2, 18); }
/* @q configs=default,inference tconfigs=default,inference,no-optimize max=200 reach=end | every keyword, name and non-function at the head of an empty or one-argument expression, 18 arguments, in 7 contexts */
void h_zero(void) { unsigned long c = vt_pick(7), w = vt_pick(NWORDS), n = vt_pick(2); form(w, c, n, 18); }
/* @q configs=default max=600 reach=end | every keyword and name (first part) with 2 of 18 arguments in 7 contexts */
void h_two_a(void) { two(0, 15); }
/* @q configs=default max=600 reach=end | the second part */
void h_two_b(void) { two(15, 30); }
/* @q configs=default max=600 reach=end | the third part */
void h_two_c(void) { two(30, 45); }
/* @q configs=default max=600 reach=end | the fourth part */
void h_two_d(void) { two(45, 61); }
/* @q configs=default tier=thorough tmax=880 reach=end | every keyword and name with 3 of 8 arguments in 3 contexts */
void h_three(void) { unsigned long c = vt_pick(3), w = vt_pick(NWORDS); form(w, c, 3, 8); }
/* The number of arguments of each keyword, from the language reference; -1: any number. */
static const struct { const char *w; int lo, hi; } arity[] = {
	{"funcall", 1, -1}, {"apply", 2, -1}, {"var", 2, 2}, {"global", 2, 2}, {"setq", 2, 2}, {"not", 1, 1}, {"*", 2, 2}, {"/", 2, 2}, {"+", 2, 2}, {"-", 2, 2},
	{"while", 1, -1}, {"if", 3, 3}, {"when", 2, -1}, {"unless", 2, -1}, {"=", 2, 2}, {"<", 2, 2}, {">", 2, 2}, {"defun", 3, -1}, {"lambda", 2, -1}, {"defmacro", 3, -1}, {"quote", 1, 1},
	{"make-vector", 2, 2}, {"get-vector-element", 2, 2}, {"set-vector-element", 3, 3}, {"cons", 2, 2}, {"car", 1, 1}, {"cdr", 1, 1}, {"set-car", 2, 2}, {"set-cdr", 2, 2}, {"null?", 1, 1},
	{"type-of", 1, 1}, {"make-type", 0, 0}, {"make-instance", 3, 3}, {"composite-value", 1, 1}, {"composite-function", 1, 1}, {"set-composite-value", 2, 2}, {"set-composite-function", 2, 2},
	{"make-string", 1, 1}, {"concatenate", 2, 2}, {"substring", 3, 3}, {"length", 1, 1}, {"symbol-string", 1, 1}, {"symbol-id", 1, 1}, {"error", 1, 1},
};
#define NARITY (sizeof arity / sizeof *arity)
static const char *const place[][2] = {{"((__var x 1) ", " 7)"}, {"((__var x 1) (__lambda () ", " 7))"}, {"((__var x 1) (__while false ", "))"}, {"((__var x 1) (__noscope ", " 7))"}, {"((__var x 1) (__if x (", " 7) 2))"}, {"(__comptime (__var x 1) ", " 7)"}};
static void refused(void) {
	dl_error_t e = vt_compile();
	VT_ASSERT(e, "the program is refused");
	VT_ASSERT(!vt_bcn, "a failed compilation gives no bytecode");
	DLC.errors.elements_length = 0;
	VT_ASSERT(vt_same(vt_value_of("((__var k 3) (__defmacro mm (z) (__list (__quote __+) z 1)) (__defun ff (z) (__+ k (mm z))) (ff 4))"), vI(8)), "compiler and VM work afterwards");
}
/* @q configs=default,inference,no-optimize max=120 reach=end | each of 44 keywords, in both spellings, with every number of arguments from 0 to 5 that its description does not allow, at 6 places of a program */
void h_arity(void) {
	unsigned long w = vt_pick(NARITY), n = vt_pick(6), c = vt_pick(6), alias = vt_pick(2);
	VT_ASSUME((long) n < arity[w].lo || (arity[w].hi >= 0 && (long) n > arity[w].hi));
	vt_open(0);
	vt_n = 0;
	P(place[c][0]); PC('('); if (alias) P("__"); P(arity[w].w);
	for (unsigned long i = 0; i < n; i++) P((arity[w].lo > 2) && (i == 1) ? " ()" : " x");
	PC(')'); P(place[c][1]);
	refused();
	duckVM_quit(&VM); duckLisp_quit(&DLC);
	VT_REACH("end");
}
static const char *const nonames[] = {"5", "-1", "2.5", "true", "\"s\"", "()", "(x)", "(y 1)", "(__lambda () 1)"};
static const char *const noparams[] = {"x", "5", "\"s\"", "true", "1.5", "(5)", "(a \"s\")", "(a (b))", "(a ())", "(true)", "(&rest)", "(a &rest)", "(a &rest b c)", "(&rest 5)", "(&rest a &rest b)", "(a 1.5 b)"};
static const char *const misuse[][2] = {
	{"(__var ", " 1)"}, {"(__global ", " 1)"}, {"(__setq ", " 1)"}, {"(__defun ", " (a) a)"}, {"(__defmacro ", " (a) a)"},
	{"(__lambda ", " 1)"}, {"(__defun g ", " 1)"}, {"(__defmacro g ", " 1)"}, {"(__funcall (__lambda ", " 1) 1 2)"}, {"(__setq x (__lambda ", " 1))"},
};
/* @q configs=default,inference,no-optimize max=120 reach=end | declarations and assignments of 9 things that are not names, and functions and macros with 16 malformed parameter lists, at 6 places of a program */
void h_names(void) {
	unsigned long k = vt_pick(10), c = vt_pick(6), alias = vt_pick(2);
	unsigned long a = k < 5 ? vt_pick(9) : vt_pick(16);
	VT_ASSUME((c == 0) || (k != 4 && k != 7));  /* macros are defined at the top level */
	vt_open(0);
	vt_n = 0;
	P(place[c][0]);
	if (alias) P(misuse[k][0]); else { PC('('); P(misuse[k][0] + 3); }
	P(k < 5 ? nonames[a] : noparams[a]); P(misuse[k][1]);
	P(place[c][1]);
	refused();
	duckVM_quit(&VM); duckLisp_quit(&DLC);
	VT_REACH("end");
}
static dl_error_t cb_next(duckVM_t *vm) {
	V v = vt_top(vm);
	dl_error_t e = duckVM_pop(vm);
	return e ? e : vt_push(vm, vI(v.i + 1));
}
/* @q configs=default,inference tconfigs=default,inference,no-optimize max=120 reach=end,call-fails,funcall-works | a host function whose global is assigned any of 14 values (Integers, Floats and Bools with any contents) by `global`, `setq` or the host, used in 6 ways in the same or a later program, with and without a collection between them, and linked again */
void h_redefined(void) {
	static const char *const values[] = {"(in0)", "(in1)", "(in2)", "()", "\"string\"", "(__quote s)", "(__list 1 2)", "(__vector 1 2)", "(__vector)", "(__make-type)", "(__lambda (a) (__+ a k))",
	                                     "(__make-instance (__make-type) 1 2)", "(__make-instance (__make-type) 1 (__lambda (a) (__+ a k)))", "host"};
	static const char *const uses[] = {"(host 4)", "(__funcall host 4)", "(__apply host 4 ())", "(__funcall (__lambda () (host 4)))", "(__+ 0 (host 4))", "(__funcall (__lambda (f) (__funcall f 4)) host)"};
	vt_open(3);
	VT_ASSERT(!vt_link("host", cb_next, "(I)"), "callback links");
	vt_inputs[0] = vI((long) vt_draw());
	vt_inputs[1] = vF(vt_double());
	vt_inputs[2] = vB((int) (vt_draw() & 1));
	unsigned long how = vt_pick(3), v = vt_pick(14), u = vt_pick(6), later = vt_pick(2);
	int works = v == 13, closure = v == 10 || v == 12;
	vt_n = 0;
	P("((__var k 1) ");
	P(how == 1 ? "(__setq host " : how == 2 ? "(__global other " : "(__global host "); P(values[v]); PC(')');
	if (how == 2) {
		P(" 5)");
		VT_ASSERT(!vt_run(), "the program executes");
		VT_ASSERT(!vt_do("other"), "the program executes");
		dl_ptrdiff_t id = duckLisp_symbol_nameToValue(&DLC, (dl_uint8_t *) "host", 4);
		VT_ASSERT(id != -1 && !duckVM_setGlobal(&VM, id), "the host assigns the global");
		VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
		vt_n = 0;
		P("((__var k 1) ");
	}
	else if (later) {
		P(" 5)");
		VT_ASSERT(!vt_run(), "the program executes");
		VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
		VT_ASSERT(!duckVM_garbageCollect(&VM), "garbage is collected");
		vt_n = 0;
		P("((__var k 1) ");
	}
	P(uses[u]); PC(')');
	dl_error_t e = vt_compile();
	VT_ASSERT(!e, "the program compiles");
	e = duckVM_execute(&VM, vt_bc, vt_bcn);
	vt_free_bc();
	if (e) VT_REACH("call-fails");
	else {
		VT_REACH("funcall-works");
		VT_ASSERT(works || closure, "only a function can be called");
		VT_ASSERT(vt_same(vt_top(&VM), vI(5)), "the function is called");
	}
	VT_ASSERT(!e || !works || u == 2, "a host function can be assigned to its own global");
	VT_ASSERT(!duckVM_softReset(&VM), "the VM can be reset");
	dl_ptrdiff_t id = duckLisp_symbol_nameToValue(&DLC, (dl_uint8_t *) "host", 4);
	VT_ASSERT(!duckVM_linkCFunction(&VM, id, cb_next), "a host function can be linked again");
	VT_ASSERT(!duckVM_garbageCollect(&VM), "garbage is collected");
	VT_ASSERT(vt_same(vt_value_of("((__var k 3) (__defun ff (z) (__+ k (host z))) (ff 4))"), vI(8)), "compiler and VM work afterwards");
	vt_close();
	VT_REACH("end");
}
/* @q configs=default,inference max=120 reach=end | gensym, intern and read with 0 to 3 of 9 arguments, at compile time: alone, after a local, in a function and in a macro */
void h_comptime_calls(void) {
	static const char *const heads[] = {"gensym", "intern", "read"};
	static const char *const as[] = {"false", "true", "\"(a (b 1) \\\"s\\\")\"", "\"\"", "5", "()", "(__quote s)", "(__list 1)", "\"(\""};
	static const char *const around[][2] = {{"(__comptime ((", ") 1))"}, {"(__comptime ((__var k \"abc\") (", ") 1))"}, {"(__comptime ((__var f (__lambda (k) (", "))) (__funcall f \"x\") 1))"}, {"((__defmacro m (k) (", ") k) (m 1))"}};
	unsigned long h = vt_pick(3), c = vt_pick(4), n = vt_pick(4);
	vt_open(0);
	vt_n = 0;
	P(around[c][0]); P(heads[h]);
	for (unsigned long i = 0; i < n; i++) { unsigned long a = n < 3 ? vt_pick(9) : vt_pick(4); PC(' '); P(as[a]); }
	P(")"); P(around[c][1]);
	total(1);
	VT_REACH("end");
}
