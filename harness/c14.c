/* Garbage collection: results do not depend on the heap size, nothing reachable is lost, nothing unreachable is kept. */
#define VT_OUTS 64
#include "vt_dl.h"
static int vt_gcs;
static dl_error_t cb_gc(duckVM_t *vm) { vt_gcs++; dl_error_t e = duckVM_garbageCollect(vm); return e ? e : duckVM_pushNil(vm); }
static void open_small(unsigned long objects) {
	vt_open_n(2, objects);
	VT_ASSERT(!vt_link("gc", cb_gc, "()"), "callback links");
	vt_inputs[0] = vI((long) vt_draw()); vt_inputs[1] = vI((long) vt_draw());
	vt_gcs = 0;
}
/* What is kept: an expression with (in0) and (in1), and how to get them back from variable s. */
static const char *const make[] = {"(__list (in0) (in1))", "(__cons (in0) (in1))", "(__vector (in0) (in1))", "(__make-instance (__make-type) (in0) (__vector (in1)))",
	"((__var a (in0)) (__var b (in1)) (__lambda (k) (__if k a b)))", "(__list (__list (in0)) (__vector (__cons 1 (in1))))", "(__make-vector 2 (in1))", "((__var a (in0)) (__lambda () (__setq a (__+ a 0)) (__list a (in1))))"};
static const char *const first[] = {"(__car s)", "(__car s)", "(__car s)", "(__composite-value s)", "(__funcall s true)", "(__car (__car s))", "(in0)", "(__car (__funcall s))"};
static const char *const second[] = {"(__car (__cdr s))", "(__cdr s)", "(__car (__cdr s))", "(__car (__composite-function s))", "(__funcall s false)", "(__cdr (__car (__car (__cdr s))))", "(__get-vector-element s 1)", "(__car (__cdr (__funcall s)))"};
#define NMAKE 8
static const char *const junk[] = {"(__list i 2 3)", "(__vector i 2)", "(__concatenate \"ab\" \"c\")", "(__lambda () i)", "(__make-instance (__make-type) i i)", "(__cons (__make-string (__list 97 98)) ())", "(__funcall (__lambda (&rest r) r) i 2)"};
#define NJUNK 7
/* Where it is kept: text before and after the garbage; the variable s reaches it. */
static const char *const holder[][3] = {
	{"((__var s ", ") ", " )"},                                                                   /* a local */
	{"((__var s ", ") (__var q (__lambda () s)) ", " )"},                                         /* a captured local */
	{"((__global sg ", ") ", " (__var s sg) )"},                                                  /* a global */
	{"((__var t (__list 0 ", ")) ", " (__var s (__car (__cdr t))) )"},                            /* a list element */
	{"((__var t (__make-vector 3 ())) (__set-vector-element t 2 ", ") ", " (__var s (__get-vector-element t 2)) )"},
	{"((__var t (__make-instance (__make-type) ", " 0)) ", " (__var s (__composite-value t)) )"},
	{"((__var mk (__lambda (z) (__lambda () z))) (__var t (__funcall mk ", ")) ", " (__var s (__funcall t)) )"},  /* a released variable */
	{"((__var t (__list ", " ((__var u 1) ", " u))) (__var s (__car t)) )"},                      /* an operand of a pending call */
	{"((__var t (__funcall (__lambda (z) ((__var u 1) ", " (__cdr (__cons u z)))) ", ")) (__var s t) )"},
};
#define NHOLD 9
static void garbage(unsigned long j) { P("(__var i 0) (__while (__< i 25) "); P(junk[j]); P(" (__setq i (__+ i 1)))"); }
static void text(unsigned long h, unsigned long m, unsigned long j, int which) {
	vt_n = 0;
	P(holder[h][0]);
	if (h == 8) { garbage(j); P(holder[h][1]); P(make[m]); P(holder[h][2]); }
	else { P(make[m]); P(holder[h][1]); garbage(j); P(holder[h][2]); }
	vt_n--;
	P(which ? second[m] : first[m]);
	P(")");
}
static int is_oom(dl_error_t e) { return e == dl_error_outOfMemory; }
static void kept(unsigned long h, unsigned long m, unsigned long j, unsigned long objects, unsigned long enough) {
	open_small(objects);
	int done = 0, failed = 0;
	for (int round = 0; round < 3; round++) {
		text(h, m, j, round & 1);
		VT_ASSERT(!vt_compile(), "the program compiles");
		dl_error_t e = duckVM_execute(&VM, vt_bc, vt_bcn);
		vt_free_bc();
		if (e) {
			VT_ASSERT(is_oom(e), "the only error is that memory is exhausted");
			VT_ASSERT(objects < enough, "a sufficient heap is enough");
			failed = 1;
			VT_ASSERT(!duckVM_softReset(&VM), "the VM can be reset");
		}
		else {
			VT_ASSERT(vt_same(vt_top(&VM), m == 6 && !(round & 1) ? vt_inputs[0] : vt_inputs[round & 1]), "what is reachable keeps its value");
			VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
			done = 1;
		}
		/* Globals keep objects from the second execution on. */
	}
	VT_ASSERT(!(done && failed) || h == 2, "an execution leaves nothing behind");
	if (done) VT_REACH("end");
	vt_close();
}
/* @q configs=default max=150 tmax=300 | 8 kinds of structure held in a local, captured local, global, list or vector element while 3 of 7 kinds of garbage are made 25 times, heaps of 10 to 58 objects in steps of 6, three executions each, arbitrary Integers */
void h_held_a(void) { unsigned long h = vt_pick(5), m = vt_pick(NMAKE), j = (h + 2 * m + vt_pick(3)) % NJUNK, n = vt_pick(9); kept(h, m, j, 10 + 6 * n, 50); }
/* @q configs=default max=150 tmax=300 | the same held in a composite, a released variable, an operand of a pending call and an argument */
void h_held_b(void) { unsigned long h = 5 + vt_pick(4), m = vt_pick(NMAKE), j = (h + 2 * m + vt_pick(3)) % NJUNK, n = vt_pick(9); kept(h, m, j, 10 + 6 * n, 50); }
/* @q configs=default tier=thorough tmax=700 | the same with every heap size from 8 to 60 */
void h_held_all(void) { unsigned long n = vt_pick(53), h = vt_pick(NHOLD), m = vt_pick(NMAKE), j = vt_pick(NJUNK); kept(h, m, j, 8 + n, 50); }
/* @q configs=default,no-optimize tconfigs=default,no-optimize,portable max=60 | a collection requested by a callback, directly, twice around an allocation, or inside a function calling itself twice, at any operand position of 21 operations */
void h_requested(void) {
	static const char *const ops[] = {"(__list (__list (in0) 1) X (in1))", "(__cons (__list (in0)) (__cons X (in1)))", "(__vector (__list (in0)) X (in1))", "(__car (__list (__list (in0)) X))",
		"(__apply (__lambda (a b c) a) (__list (in0)) X (__list (in1)))", "(__funcall (__lambda (a &rest r) (__list a r)) (__list (in0)) X (__list (in1)))",
		"(__make-instance (__make-type) (__list (in0)) (__cons X (in1)))", "(__concatenate (__make-string (__list 97)) (__concatenate \"b\" ((__var u X) \"c\")))",
		"((__var a (__list (in0))) (__var f (__lambda () X a)) (__funcall f))", "((__var a (__list (in0))) (__global f (__lambda () (__lambda () X a))) (__funcall (f)))",
		"((__var v (__vector 1 2)) (__set-vector-element v 0 (__list (in0) X)) (__get-vector-element v 0))", "((__var l (__list 1 2)) (__set-car l (__list (in0) X)) (__car l))",
		"((__var l (__list 1)) (__set-cdr l (__list (in0) X)) (__cdr l))", "(__substring (__concatenate \"ab\" (__make-string (__list 99))) 0 ((__var u X) 2))",
		"((__var c (__make-instance (__make-type) 1 2)) (__set-composite-value c (__list (in0) X)) (__composite-value c))",
		"((__var c (__make-instance (__make-type) 1 2)) (__set-composite-function c (__lambda () (__set-composite-function c 0) X (in0))) (__funcall c))",
		"((__var y (in0)) (__var c (__make-instance (__make-type) 1 2)) (__set-composite-function c (__lambda () (__set-composite-function c 0) X y)) (__funcall c))",
		"((__defun f (n) (__if (__= n 0) ((__var u X) (__list (in0))) ((__var m (__list n)) (__cons (__car m) (self (__- n 1)))))) (f 3))",
		"(__make-vector 2 (__list (in0) X))", "((__var f ()) (__var y (in0)) (__setq f (__lambda () (__setq f 0) X y)) (__funcall f))",
		"((__defun f (n) (__lambda () (__setq n (__+ n 1)) X n)) (__var g (f (in0))) (__funcall g) (__funcall g))"};
	open_small(200);
	unsigned long k = vt_pick(21), used = vt_pick(3);
	VT_ASSERT(!vt_do("(__global deep (__lambda (n) (gc) (__if (__< n 1) 0 (deep (__- n 1))) (__list n 2) (gc)))"), "a function that collects");
	VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
	static V without[4], with[4];
	/* The value's structure, read by a fixed walk, must be the same with and without the collection. */
	for (int pass = 0; pass < 2; pass++) {
		vt_n = 0;
		P("(__global res ");
		for (const char *p = ops[k]; *p; p++) {
			if (*p != 'X') PC(*p);
			else P(pass ? used == 2 ? "(deep 2)" : used ? "((__var w (gc)) (__list 7) (gc))" : "(gc)" : "()");
		}
		P(")");
		VT_ASSERT(!vt_run(), "the program runs");
		VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
		V *r = pass ? with : without;
		static const char *const walk[] = {"(__type-of res)", "res", "(__car res)", "(__car (__car res))"};
		for (int w = 0; w < 4; w++) {
			r[w].t = -1; r[w].i = 0; r[w].f = 0;
			vt_n = 0; P(walk[w]);
			VT_ASSERT(!vt_compile(), "the walk compiles");
			if (duckVM_execute(&VM, vt_bc, vt_bcn)) VT_ASSERT(!duckVM_softReset(&VM), "the VM can be reset");
			else { r[w] = vt_top(&VM); VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied"); }
			vt_free_bc();
		}
	}
	VT_ASSERT(vt_gcs, "garbage is collected");
	for (int w = 0; w < 4; w++) VT_ASSERT(vt_same(with[w], without[w]), "a collection changes nothing");
	vt_close();
	VT_REACH("end");
}
/* A function of an earlier execution drops every reference to itself while it runs. */
static const char *const drop_def[] = {"(__global f (__lambda () (__setq f 0) X (__list (in0))))", "(__global f (__make-instance (__make-type) 0 (__lambda () (__set-composite-function f 0) X (__list (in0)))))",
	"(__global f (__vector 0 (__lambda () (__set-vector-element f 1 0) X (__list (in0)))))", "((__var y (in0)) (__global f (__lambda () (__setq f 0) X (__list y))))",
	"((__var y (in0)) (__global f (__lambda () (__setq f 0) (__var r (__lambda () (__list y))) X r)))", "(__global f (__lambda () (__setq f 0) X (__funcall (__lambda (a) X (__list a)) (in0))))",
	"(__global f (__lambda (n) (__setq f 0) X (__if (__= n 0) (__list (in0)) (self (__- n 1)))))"};
static const char *const drop_use[] = {"(__car (f))", "(__car (__funcall f))", "(__car (__funcall (__get-vector-element f 1)))", "(__car (f))", "(__car (__funcall (f)))", "(__car (__apply f ()))", "(__car (f 2))"};
/* @q configs=default,no-optimize max=60 | functions of an earlier execution that drop the last reference to themselves (global, composite, vector element, captured) and then collect, directly or inside calls: the value, arbitrary Integers */
void h_dropped(void) {
	open_small(200);
	unsigned long k = vt_pick(7), used = vt_pick(2), later = vt_pick(2);
	VT_ASSERT(!vt_do("(__global deep (__lambda (n) (gc) (__if (__< n 1) 0 (deep (__- n 1))) (__list n 2) (gc)))"), "a function that collects");
	vt_n = 0;
	for (const char *p = drop_def[k]; *p; p++) {
		if (*p != 'X') PC(*p);
		else P(used ? "(deep 2)" : "(gc)");
	}
	VT_ASSERT(!vt_run(), "defined");
	VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
	vt_n = 0;
	P(later ? "((__var q (__lambda () " : "((__var q 1) "); P(drop_use[k]); P(later ? ")) (__funcall q))" : ")");
	VT_ASSERT(!vt_run(), "the program runs");
	VT_ASSERT(vt_same(vt_top(&VM), vt_inputs[0]), "a running function is kept");
	vt_close();
	VT_REACH("end");
}
/* @q configs=default tconfigs=default,inference,no-optimize max=60 | functions created by functions of earlier executions: every sequence of 5 of redefining, dropping, calling and collecting, arbitrary Integers */
void h_executions(void) {
	long val[3]; int have[3] = {0, 0, 0};   /* mk, f, g */
	open_small(120);
	VT_ASSERT(!vt_do("(__global mk (__lambda (z) (__lambda () (__setq z (__+ z 1)) (__lambda () z))))"), "defined"); have[0] = 1;
	for (int s = 0; s < 5; s++) {
		switch (vt_pick(6)) {
		case 0: if (!have[0]) break; VT_ASSERT(!vt_do("(__global f (mk (in0)))"), "defined"); have[1] = 1; val[1] = vt_inputs[0].i; break;
		case 1: VT_ASSERT(!vt_do("(__global mk 0)"), "dropped"); have[0] = 0; break;
		case 2: if (!have[1]) break; VT_ASSERT(!vt_do("(__global g (f))"), "defined"); val[1]++; have[2] = 1; val[2] = 0; break;
		case 3: VT_ASSERT(!vt_do("(__global f 0)"), "dropped"); if (have[1]) { if (have[2] && !val[2]) val[2] = val[1]; } have[1] = 0; break;
		case 4: if (!have[2]) break; { V v = vt_value_of("(g)"); VT_ASSERT(v.t == duckVM_object_type_integer, "a function of a dropped function works"); VT_ASSERT(have[1] == 0 || 1, ""); } break;
		default: VT_ASSERT(!vt_do("((__var i 0) (__while (__< i 60) (__list i i) (__setq i (__+ i 1))))"), "garbage"); break;
		}
		VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
	}
	VT_ASSERT(!duckVM_garbageCollect(&VM), "garbage is collected");
	if (have[1]) { VT_ASSERT(vt_same(vt_value_of("((__var k (f)) (__funcall k))"), vI(val[1] + 1)), "the variable is kept"); }
	vt_close();
	VT_REACH("end");
}
static const char *const ct_progs[] = {"((__defmacro m (a &rest b) (__var l (__list (__quote __+) a (__list (__quote __-) (__car b) 1))) (__var i 0) (__while (__< i 20) (__list i i) (__setq i (__+ i 1))) l) (m (in0) 5))",
	"((__defmacro m (n x) (__if (__< n 1) x (__list (__quote __+) 1 (__list (__quote m) (__- n 1) x)))) (m 4 (in0)))",
	"(__+ (in0) (__comptime ((__var f (__lambda (n) (__if (__< n 1) 0 ((__list 1 2 3) (__+ 1 (self (__- n 1))))))) (__funcall f 4))))",
	"((__defmacro m (x) (__list (__quote __car) (__list (__quote __quote) (__list 4 (__list \"abc\" x))))) (__+ (in0) (m z)))",
	"((__comptime (__global ct (__list 1 2 1))) (__comptime ((__var i 0) (__while (__< i 30) (__vector i) (__setq i (__+ i 1))) 0)) (__+ (in0) (__comptime (__+ (__car ct) (__+ 1 (__car (__cdr ct)))))))",
	"((__defmacro rd (s) (__car (read s false))) (__+ (in0) (rd \"(__+ 1 (__- (__+ 1 3) (__- 2 1)))\")))",
	"((__defmacro rd (s) (__var i 0) (__while (__< i 7) (__list i) (__setq i (__+ i 1))) (__car (read s false))) (__+ (in0) (rd \"(__length (__vector 1 \\\"s\\\" (__list x y) 2.5))\")))"};
static void compile_time(unsigned long objects, unsigned long k) {
	vt_memory();
	memset(&DLC, 0, sizeof DLC); memset(&VM, 0, sizeof VM);
	if (vt_dl_open(objects)) { VT_ASSERT(objects < 40, "a sufficient heap is enough"); return; }
	VT_ASSERT(!vt_vm_open(VT_MAXOBJ), "VM starts");
	if (vt_link("in0", vt_cb0, "()")) return;
	vt_inputs[0] = vI((long) vt_draw());
	if (k == 6) VT_ASSERT(!vt_do("((__global x 1) (__global y 2))"), "globals are defined");
	for (int i = 0; i < 3; i++) {
		vt_n = 0; P(ct_progs[k]);
		dl_error_t e = vt_compile();
		if (e) {
			VT_ASSERT(objects < (k < 5 ? 50 : 60), "a sufficient heap is enough");
			if (vt_bc) vt_free_bc();
			VT_REACH("exhausted");
		}
		else {
			VT_ASSERT(!duckVM_execute(&VM, vt_bc, vt_bcn), "the program executes");
			VT_ASSERT(vt_same(vt_top(&VM), vI(vt_inputs[0].i + 4)), "the value");
			vt_free_bc();
			VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
			VT_REACH("end");
		}
		vt_n = 0;
		VT_ASSERT(vt_same(vt_value_of("((__var a 3) (__+ a (in0)))"), vI(vt_inputs[0].i + 3)), "the compiler works afterwards");
	}
}
/* @q configs=default tconfigs=default,inference max=60 | macros and comptime forms that make structures and garbage, compile-time heaps of 10 to 58 objects: the value, or a compilation error after which a small program compiles and runs */
void h_compile_time(void) { unsigned long n = vt_pick(13), k = vt_pick(5); compile_time(10 + 4 * n, k); }
/* @q configs=default tconfigs=default,inference,no-optimize max=60 | macros that read the text of nested expressions, every compile-time heap of 20 to 79 objects */
void h_compile_time_read(void) { unsigned long n = vt_pick(60), k = vt_pick(2); compile_time(20 + n, 5 + k); }
/* Structures of any size: every component i is a list ((in0) i), sent to (out) after the garbage. */
static void comp(unsigned long i) { P("(__list (in0) "); PU(i); P(")"); }
static void outs(unsigned long i) { P("(out (__car a"); PU(i); P(")) (out (__car (__cdr a"); PU(i); P("))) "); }
static void execute_(void) {
	VT_ASSERT(!vt_run(), "the program executes");
	VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
}
static void walk(const char *v) { P("((__var p "); P(v); P(") (__while p (out (__car (__car p))) (out (__car (__cdr (__car p)))) (__setq p (__cdr p))))"); }
static void large(unsigned long kind, unsigned long n, unsigned long extra) {
	int down = 0;
	vt_open_n(2, 40 + 10 * n + (kind == 5 ? n * n : 0) + extra);
	vt_open_out();
	VT_ASSERT(!vt_link("gc", cb_gc, "()"), "callback links");
	vt_inputs[0] = vI((long) vt_draw());
	vt_n = 0;
	P("((__global waste (__lambda () (gc) (__var i 0) (__while (__< i 60) (__list i 2 3) (__vector i i) (__setq i (__+ i 1))) (gc))))");
	execute_();
	P("(");
	switch (kind) {
	case 0: /* one function that captures n variables */
		P("(__var mk (__lambda () "); for (unsigned long i = 0; i < n; i++) { P("(__var a"); PU(i); P(" "); comp(i); P(") "); }
		P("(__lambda () (waste) "); for (unsigned long i = 0; i < n; i++) outs(i); P("1))) (__var f (__funcall mk)) (waste) (__funcall f)");
		break;
	case 1: P("(__var l (__list"); for (unsigned long i = 0; i < n; i++) { P(" "); comp(i); } P(")) (waste) "); walk("l"); break;
	case 2: P("(__var l (__vector"); for (unsigned long i = 0; i < n; i++) { P(" "); comp(i); } P(")) (waste) "); walk("l"); break;
	case 3: P("(__funcall (__lambda (&rest r) (waste) "); walk("r"); P(")"); for (unsigned long i = 0; i < n; i++) { P(" "); comp(i); } P(")"); break;
	case 4: /* parameters and a tail */
		P("(__apply (__lambda (a0 &rest r) (waste) "); outs(0); walk("r"); P(") "); comp(0); P(" (__list"); for (unsigned long i = 1; i < n; i++) { P(" "); comp(i); } P("))"); break;
	case 5: /* functions nested to depth n, each with a variable; the innermost uses them all */
		P("(__var f (__lambda () "); for (unsigned long i = 0; i < n; i++) { P("(__var a"); PU(i); P(" "); comp(i); P(") (waste) (__lambda () "); }
		P("(waste) "); for (unsigned long i = 0; i < n; i++) outs(i); P("1");
		for (unsigned long i = 0; i < n; i++) P(")"); P(")) ");
		for (unsigned long i = 0; i <= n; i++) P("(__funcall "); P("f"); for (unsigned long i = 0; i <= n; i++) P(")");
		break;
	case 6: /* parameters of n pending calls */
		P("(__defun r (n l) (__if (__= n "); PU(n); P(") (waste) (self (__+ n 1) (__list (in0) (__+ n 1)))) (__if (__null? l) 0 ((out (__car l)) (out (__- (__car (__cdr l)) 1))))) (r 0 ())");
		down = 1;
		break;
	case 7: /* n pending calls of functions from executions of their own, which are dropped while they run */
		P("0)");
		execute_();
		for (unsigned long i = n; i-- > 0;) {
			P("((__global f"); PU(i); P(" (__funcall (__lambda (a"); PU(i); P(") (__lambda () (__setq f"); PU(i); P(" 0) ");
			if (i + 1 < n) { P("(f"); PU(i + 1); P(") "); } else P("(waste) ");
			outs(i); P("1)) "); comp(i); P(")))");
			execute_();
		}
		P("((f0)");
		down = 1;
		break;
	case 8: for (unsigned long i = 0; i < n; i++) { P("(__global a"); PU(i); P(" "); comp(i); P(") "); } P("(waste) "); for (unsigned long i = 0; i < n; i++) outs(i); P("1"); break;
	case 9: /* n composites, one in the other */
		P("(__var t (__make-type)) (__var c ()) "); for (unsigned long i = n; i-- > 0;) { P("(__setq c (__make-instance t "); comp(i); P(" c)) "); }
		P("(waste) (__var i 0) (__while (__< i "); PU(n); P(") (__setq i (__+ i 1)) (out (__car (__composite-value c))) (out (__car (__cdr (__composite-value c)))) (__setq c (__composite-function c)))"); break;
	case 10: /* n operands of a pending call */
		P("(__defun f ("); for (unsigned long i = 0; i < n; i++) { P("a"); PU(i); P(" "); } P("z) "); for (unsigned long i = 0; i < n; i++) outs(i); P("1) (f"); for (unsigned long i = 0; i < n; i++) { P(" "); comp(i); } P(" (waste))"); break;
	default: /* n locals captured by a function while they are still on the stack */
		for (unsigned long i = 0; i < n; i++) { P("(__var a"); PU(i); P(" "); comp(i); P(") "); }
		P("(__var f (__lambda () "); for (unsigned long i = 0; i < n; i++) { P("(__setq a"); PU(i); P(" (__cons (__car a"); PU(i); P(") (__cdr a"); PU(i); P("))) "); } P("1)) (waste) (__funcall f) (waste) "); for (unsigned long i = 0; i < n; i++) outs(i); P("1");
	}
	P(")");
	execute_();
	VT_ASSERT(vt_nout == (int) (2 * n), "every component is there");
	for (unsigned long i = 0; i < n; i++) {
		VT_ASSERT(vt_same(vt_out[2 * i], vt_inputs[0]), "a component is kept");
		VT_ASSERT(vt_same(vt_out[2 * i + 1], vI((long) (down ? n - 1 - i : i))), "the components are in order");
	}
	vt_close();
	VT_REACH("end");
}
/* @q configs=default tconfigs=default,inference,no-optimize max=90 | structures of 1 to 20 components kept over collections in the first half of 12 places: captured variables of one function, list, vector, rest list, applied list, nested functions */
void h_large_a(void) { static const unsigned char ns[] = {1, 2, 3, 5, 9, 20}; unsigned long k = vt_pick(6), n = vt_pick(6); large(k, ns[n], 30); }
/* @q configs=default tconfigs=default,inference,no-optimize max=90 | and in the second: pending calls, dropped functions that are running, globals, nested composites, operands, locals that are captured while on the stack */
void h_large_b(void) { static const unsigned char ns[] = {1, 2, 3, 5, 9, 20}; unsigned long k = vt_pick(6), n = vt_pick(6); large(6 + k, ns[n], 30); }
/* (fill): a collection, then objects that nothing refers to until vt_left are free. */
static long vt_left;
static dl_error_t cb_fill(duckVM_t *vm) {
	if (vt_left >= 0) {
		dl_error_t e = duckVM_garbageCollect(vm);
		if (e) return e;
		VT_ASSERT(vm->gclist.freeObjects_length >= 60, "there is room");
		while (vm->gclist.freeObjects_length > (dl_size_t) vt_left) {
			duckVM_object_t *p, o = duckVM_object_makeInteger(0);
			e = duckVM_allocateHeapObject(vm, &p, o);
			if (e) return e;
		}
	}
	return duckVM_pushNil(vm);
}
/* (host a b): structures made by a host function; its arguments are popped last. */
static unsigned long vt_host;
static dl_error_t cb_host(duckVM_t *vm) {
	dl_error_t e = dl_error_ok;
	switch (vt_host) {
	case 0: e = duckVM_pushCons(vm); if (!e) e = duckVM_push(vm, -3); if (!e) e = duckVM_setCar(vm, -2); if (!e) e = duckVM_pop(vm); if (!e) e = duckVM_push(vm, -2); if (!e) e = duckVM_setCdr(vm, -2); if (!e) e = duckVM_pop(vm); break;
	case 1: e = duckVM_pushVector(vm, 3); if (!e) e = duckVM_push(vm, -2); if (!e) e = duckVM_setElement(vm, 1, -2); if (!e) e = duckVM_pop(vm); if (!e) e = duckVM_push(vm, -3); if (!e) e = duckVM_setElement(vm, 0, -2); if (!e) e = duckVM_pop(vm); break;
	case 2: e = duckVM_pushComposite(vm, 40); if (!e) e = duckVM_push(vm, -2); if (!e) e = duckVM_setCompositeValue(vm, -2); if (!e) e = duckVM_pop(vm); if (!e) e = duckVM_push(vm, -3); if (!e) e = duckVM_setCompositeFunction(vm, -2); if (!e) e = duckVM_pop(vm); if (!e) e = duckVM_pushCompositeValue(vm); if (!e) e = duckVM_setCdr(vm, -4); if (!e) e = duckVM_pop(vm); if (!e) e = duckVM_pushCompositeFunction(vm); if (!e) e = duckVM_copyFromTop(vm, -2); if (!e) e = duckVM_pop(vm); break;
	case 3: e = duckVM_pushString(vm, (dl_uint8_t *) "ghi", 3); if (!e) e = duckVM_setCar(vm, -3); break;
	default: e = duckVM_pushSymbol(vm, 900, (dl_uint8_t *) "sym", 3); if (!e) e = duckVM_setCdr(vm, -2); if (!e) e = duckVM_pop(vm); if (!e) e = duckVM_push(vm, -1); break;
	}
	if (!e) e = duckVM_copyFromTop(vm, -3);
	if (!e) e = duckVM_pop(vm);
	if (!e) e = duckVM_pop(vm);
	return e;
}
/* The operation, with a, b: lists (x 7) (8 x), s: "abc", v: vector of a and b, t: a type, c: a composite of a and b, f: a function; and how to read its result r. */
static const char *const allocating[][2] = {
	{"(__cons a b)", "(out (__car (__car r))) (out (__car (__cdr r)))"},
	{"(__cons 5 (__cons s 6))", "(out (__car r)) (out (__car (__car (__cdr r)))) (out (__cdr (__cdr r)))"},
	{"(__list a s b)", "(out (__car (__car r))) (out (__car (__car (__cdr r)))) (out (__car (__car (__cdr (__cdr r)))))"},
	{"(__list (__list a 1) (__list 2 (__vector b)))", "(out (__car (__car (__car r)))) (out (__car (__cdr (__car r)))) (out (__car (__car (__car (__cdr (__car (__cdr r)))))))"},
	{"(__vector a b \"def\" 4)", "(out (__car (__get-vector-element r 1))) (out (__get-vector-element r 3)) (out (__car (__get-vector-element r 2)))"},
	{"(__make-vector 3 (__list a))", "(out (__car (__car (__car r)))) (out (__car (__car (__get-vector-element r 2))))"},
	{"(__concatenate s \"def\")", "(out (__car r)) (out (__car (__cdr (__cdr (__cdr (__cdr r)))))) (out (__length r))"},
	{"(__concatenate (__cdr s) (__concatenate s \"x\"))", "(out (__car r)) (out (__length r))"},
	{"(__substring (__concatenate s s) 1 5)", "(out (__car r)) (out (__length r))"},
	{"(__make-string (__list 97 98 99))", "(out (__car r)) (out (__car (__cdr (__cdr r))))"},
	{"(__symbol-string (__quote hello))", "(out (__car r)) (out (__length r))"},
	{"(__quote (one \"two\" (3 (four 5)) #(6)))", "(out (__symbol-id (__car r))) (out (__car (__car (__cdr r)))) (out (__car (__cdr (__car (__cdr (__car (__cdr (__cdr r))))))))"},
	{"(__set-car a (__list s 9))", "(out (__car (__car (__car a)))) (out (__car (__cdr (__car a)))) (out (__car (__car r)))"},
	{"(__set-cdr a (__list s 9))", "(out (__car (__car (__cdr a)))) (out (__car (__cdr (__cdr a))))"},
	{"(__set-cdr a 5.5)", "(out (__cdr a))"},
	{"(__set-vector-element v 1 (__list a 3))", "(out (__car (__car (__get-vector-element v 1)))) (out (__car (__get-vector-element v 0)))"},
	{"(__make-instance t (__list a) (__list b))", "(out (__car (__car (__composite-value r)))) (out (__car (__car (__composite-function r))))"},
	{"(__set-composite-value c (__list a 4))", "(out (__car (__car (__composite-value c)))) (out (__car (__composite-function c)))"},
	{"(__set-composite-function c (__lambda () b))", "(out (__car (__funcall c))) (out (__car (__composite-value c)))"},
	{"(__lambda () (__list a s))", "(out (__car (__car (__funcall r)))) (out (__car (__car (__cdr (__funcall r)))))"},
	{"((__var p (__list a)) (__var q (__list b)) (__var k (__lambda () p q)) (__lambda () (__list (__car p) (__car q))))", "(out (__car (__car (__funcall r)))) (out (__car (__car (__cdr (__funcall r)))))"},
	{"(__funcall (__lambda (p q) (__lambda () (__lambda () (__list p q)))) a (__list b))", "(__var w (__funcall (__funcall r))) (out (__car (__car w))) (out (__car (__car (__car (__cdr w)))))"},
	{"(__funcall (__lambda (&rest m) m) a s b)", "(out (__car (__car r))) (out (__car (__car (__cdr r)))) (out (__car (__car (__cdr (__cdr r)))))"},
	{"(__funcall (__lambda (p &rest m) (__cons m p)) a (__list s) (__list b))", "(out (__car (__car (__car (__car r))))) (out (__car (__cdr r))) (out (__car (__car (__car (__cdr (__car r))))))"},
	{"(__apply (__lambda (p &rest m) (__cons p m)) (__list a) (__list (__list b) s))", "(out (__car (__car (__car r)))) (out (__car (__car (__car (__cdr r))))) (out (__car (__car (__cdr (__cdr r)))))"},
	{"(__global keep (__list a))", "(out (__car (__car keep)))"},
	{"(__setq a (__list b (__list a)))", "(out (__car (__car a))) (out (__car (__car (__car (__cdr a)))))"},
	{"(__cdr (__vector 1 a b))", "(out (__car (__car r))) (out (__length r))"},
	{"(__cdr (__cdr (__concatenate s s)))", "(out (__car r)) (out (__length r))"},
	{"(__funcall f (__list a s))", "(out (__car r)) (out (__car (__car (__cdr r))))"},
	{"((__defun rec (n) (__if (__< n 1) (__list a) (__cons n (self (__- n 1))))) (rec 3))", "(out (__car r)) (out (__car (__cdr (__cdr r)))) (out (__car (__car (__cdr (__cdr (__cdr r))))))"},
	{"(__make-type)", "(out (__= r t))"},
	{"(host a b)", "(out (__car (__car r))) (out (__car (__cdr r)))"}, {"(host a b)", "(out (__car (__car r))) (out (__car (__car (__cdr r))))"}, {"(host a b)", "(out (__car r)) (out (__car (__cdr b)))"},
	{"(host a b)", "(out (__car (__car a))) (out (__car r))"}, {"(host a b)", "(out (__symbol-id (__cdr r))) (out (__car (__symbol-string (__cdr b))))"},
};
#define NALLOC (sizeof allocating / sizeof *allocating)
static void exact(unsigned long op, long left) {
	V expected[8];
	int n = 0;
	vt_open_n(1, VT_MAXOBJ);
	vt_open_out();
	VT_ASSERT(!vt_link("gc", cb_gc, "()") && !vt_link("fill", cb_fill, "()") && !vt_link("host", cb_host, "(I I)"), "callbacks link");
	vt_inputs[0] = vI((long) vt_draw());
	vt_host = op - (NALLOC - 5);
	vt_n = 0;
	P("((__global waste (__lambda () (gc) (__var i 0) (__while (__< i 70) (__list i 2) (__setq i (__+ i 1))) (gc))))");
	execute_();
	for (int round = 0; round < 2; round++) {
		vt_left = round ? left : -1;
		vt_nout = 0;
		P("((__var x (in0)) (__var a (__list x 7)) (__var b (__list 8 x)) (__var s \"abc\") (__var v (__vector a b)) (__var t (__make-type)) (__var c (__make-instance t a b)) (__var f (__lambda (k) (__cons x k))) (fill) (__var r ");
		P(allocating[op][0]); P(") (waste) ");
		P(allocating[op][1]); P(")");
		execute_();
		if (round) {
			VT_ASSERT(vt_nout == n, "as many results");
			for (int i = 0; i < n; i++) VT_ASSERT(vt_same(vt_out[i], expected[i]), "a collection inside an operation changes nothing");
		}
		else { n = vt_nout; VT_ASSERT(n > 0 && n <= 8, "results"); for (int i = 0; i < n; i++) expected[i] = vt_out[i]; }
	}
	vt_close();
	VT_REACH("end");
}
/* @q configs=default tconfigs=default,inference,no-optimize max=120 | a collection caused by the first, second … tenth allocation inside each of 37 operations and 5 host functions, operands and results being structures of their own */
void h_exact(void) { unsigned long op = vt_pick(NALLOC), left = vt_pick(10); exact(op, (long) left); }
/* User objects. */
static int made, destroyed, marked;
static int state[8];
static dl_error_t destroy(duckVM_gclist_t *gc, struct duckVM_object_s *o) { int *p = o->value.user.data; destroyed++; (*p)++; return dl_error_ok; }
static dl_error_t cb_user(duckVM_t *vm) {
	duckVM_object_t o = duckVM_object_makeUser(&state[made++], NULL, destroy);
	return duckVM_object_push(vm, &o);
}
/* @q configs=default max=60 | up to 3 user objects made by a callback and stored once in a global, list, vector, composite or captured variable: destroyed exactly once after becoming unreachable or at the end, never before */
void h_user(void) {
	static const char *const put[] = {"(__global h0 (user))", "(__global h1 (__list 1 (user)))", "(__global h2 (__vector 1 (user)))", "(__global h3 (__make-instance (__make-type) (user) 1))", "((__var q (user)) (__global h4 (__lambda () (__type-of q))))"};
	static const char *const drop[] = {"(__setq h0 0)", "(__setq h1 0)", "(__setq h2 0)", "(__setq h3 0)", "(__setq h4 0)"};
	open_small(60);
	made = destroyed = marked = 0;
	memset(state, 0, sizeof state);
	VT_ASSERT(!vt_link("user", cb_user, "()"), "callback links");
	int which[4], live[4];
	int n = 0;
	unsigned long again = vt_pick(2);
	for (int i = 0; i < 3; i++) {
		unsigned long k = vt_pick(5);
		if (vt_pick(2) || i == 0) {
			int old = -1;
			for (int j = 0; j < n; j++) if (which[j] == (int) k && live[j]) old = j;
			VT_ASSERT(!vt_do(put[k]), "the object is stored");
			if (old >= 0) live[old] = 0;
			which[n] = k; live[n] = 1; n++;
		}
		else {
			VT_ASSERT(!vt_do(drop[k]), "the object is dropped");
			for (int j = 0; j < n; j++) if (which[j] == (int) k) live[j] = 0;
		}
		VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
		if (again) {
			VT_ASSERT(!duckVM_garbageCollect(&VM), "garbage is collected");
			VT_ASSERT(!duckVM_garbageCollect(&VM), "garbage is collected again");
			for (int j = 0; j < n; j++) VT_ASSERT(live[j] ? state[j] == 0 : state[j] == 1, "an object is destroyed once");
		}
		VT_ASSERT(!vt_do("((__var i 0) (__while (__< i 60) (__list i i) (__setq i (__+ i 1))))"), "garbage");
		VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
		VT_ASSERT(!duckVM_garbageCollect(&VM), "garbage is collected");
		for (int j = 0; j < n; j++) VT_ASSERT(live[j] ? state[j] == 0 : state[j] == 1, "an object is destroyed once, when it has become unreachable");
	}
	duckVM_quit(&VM);
	for (int j = 0; j < n; j++) VT_ASSERT(state[j] == 1, "every object is destroyed once at the end");
	VT_REACH("end");
}
/* User objects that refer to heap objects: (box l) refers to the list l, (unbox b) is that list. */
typedef struct { duckVM_object_t *list; int dead; } Box;
static Box boxes[8];
static int nbox;
static dl_error_t box_mark(duckVM_gclist_t *gc, dl_array_t *dispatch, struct duckVM_object_s *o) { Box *b = o->value.user.data; return dl_array_pushElement(dispatch, &b->list); }
static dl_error_t box_destroy(duckVM_gclist_t *gc, struct duckVM_object_s *o) { ((Box *) o->value.user.data)->dead++; return dl_error_ok; }
static dl_error_t cb_box(duckVM_t *vm) {
	duckVM_object_t o;
	dl_error_t e = dl_array_getTop(&vm->stack, &o);
	if (e) return e;
	VT_ASSERT(nbox < 8 && o.type == duckVM_object_type_list, "a list is boxed");
	boxes[nbox].list = o.value.list;
	boxes[nbox].dead = 0;
	e = duckVM_pop(vm);
	if (e) return e;
	o = duckVM_object_makeUser(&boxes[nbox++], box_mark, box_destroy);
	return duckVM_object_push(vm, &o);
}
static dl_error_t cb_unbox(duckVM_t *vm) {
	duckVM_object_t o;
	dl_error_t e = dl_array_getTop(&vm->stack, &o);
	if (e) return e;
	VT_ASSERT(o.type == duckVM_object_type_user, "a box is opened");
	Box *b = o.value.user.data;
	VT_ASSERT(!b->dead, "a reachable box is not destroyed");
	e = duckVM_pop(vm);
	if (e) return e;
	o.type = duckVM_object_type_list;
	o.value.list = b->list;
	return duckVM_object_push(vm, &o);
}
/* @q configs=default max=60 | user objects with a marker that refer to lists, vectors, closures, composites and further such objects, held in 8 ways during garbage: what they refer to keeps its value and they are not destroyed; arbitrary Integers, heaps of 40 to 76 objects */
void h_marker(void) {
	static const char *const in[] = {"(__list (in0) (in1))", "(__list (in0) (__vector (in1)))", "(__list (in0) ((__var z (in1)) (__lambda () z)))", "(__list (in0) (__make-instance (__make-type) (in1) 0))", "(__list (in0) (box (__list (in1))))", "(__list (in0) (__concatenate \"ab\" \"c\"))"};
	static const char *const get[] = {"(__car (__cdr (unbox s)))", "(__car (__car (__cdr (unbox s))))", "(__funcall (__car (__cdr (unbox s))))", "(__composite-value (__car (__cdr (unbox s))))", "(__car (unbox (__car (__cdr (unbox s)))))", "(__length (__car (__cdr (unbox s))))"};
	static const char *const hold[][3] = {{"((__var s ", ") ", " )"}, {"((__var s ", ") (__var q (__lambda () s)) ", " )"}, {"((__global sg ", ") ", " (__var s sg) )"}, {"((__var t (__list 0 ", ")) ", " (__var s (__car (__cdr t))) )"},
		{"((__var t (__make-vector 3 ())) (__set-vector-element t 2 ", ") ", " (__var s (__get-vector-element t 2)) )"}, {"((__var t (__make-instance (__make-type) ", " 0)) ", " (__var s (__composite-value t)) )"},
		{"((__var mk (__lambda (z) (__lambda () z))) (__var t (__funcall mk ", ")) ", " (__var s (__funcall t)) )"}, {"((__var t (box (__list ", "))) ", " (__var s (__car (unbox t))) )"}};
	unsigned long h = vt_pick(8), k = vt_pick(6), which = vt_pick(2), objects = 40 + 12 * vt_pick(4);
	open_small(objects);
	nbox = 0;
	VT_ASSERT(!vt_link("box", cb_box, "(I)") && !vt_link("unbox", cb_unbox, "(I)"), "callbacks link");
	P(hold[h][0]); P("(box "); P(in[k]); P(")"); P(hold[h][1]);
	garbage(k);
	P(hold[h][2]); vt_n--;
	P(which ? get[k] : "(__car (unbox s))"); P(")");
	VT_ASSERT(!vt_run(), "the program executes");
	VT_ASSERT(vt_same(vt_top(&VM), which ? k == 5 ? vI(3) : vt_inputs[1] : vt_inputs[0]), "what a marker reports keeps its value");
	if (h == 2) for (int i = 0; i < nbox; i++) VT_ASSERT(!boxes[i].dead, "a global box is not destroyed");
	if (h == 2) { VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied"); VT_ASSERT(!vt_do("(__setq sg 0)"), "dropped"); }
	VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
	VT_ASSERT(!duckVM_garbageCollect(&VM) && !duckVM_garbageCollect(&VM), "garbage is collected");
	if (h == 2) for (int i = 0; i < nbox; i++) VT_ASSERT(boxes[i].dead == 1, "an unreachable box is destroyed once");
	vt_close();
	VT_REACH("end");
}
