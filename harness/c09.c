/* Quotation, macros and compile-time evaluation. */
#define VT_ARENA (1 << 21)
#include "vt_prog.h"

/* ---- quotation ---- */
typedef struct { int kind; V v; const char *name; char path[80]; } Leaf;     /* kind 0: scalar, 1: string, 2: symbol, 3: end of a list */
static Leaf leaf[16];
static int nleaf, nodes, symbols_ok;
static const char *const symnames[] = {"a", "__if", "m", "-", "&rest"};
static void datum(const char *path) {
	unsigned long k = vt_pick(nodes > 0 ? 7 : 6);
	Leaf *l = &leaf[nleaf];
	if (k == 2 && !symbols_ok) k = 0;
	if (k < 6) {
		nleaf++;
		strcpy(l->path, path);
		l->kind = 0;
		switch (k) {
		case 0: l->v = vI(nleaf % 2 ? -100 * nleaf : 7 * nleaf); PI(l->v.i); return;
		case 1: l->kind = 1; l->name = nleaf % 2 ? "qs" : "x(1"; P("\""); P(l->name); P("\""); return;
		case 2: l->kind = 2; l->name = symnames[nleaf % 5]; P(l->name); return;
		case 3: l->v = vB(nleaf & 1); P(nleaf & 1 ? "true" : "false"); return;
		case 4: l->v = vF(nleaf + .5); PU(nleaf); P(".5"); return;
		default: l->v = vN(); P("()"); return;
		}
	}
	nodes--;
	unsigned long n = 1 + vt_pick(2);
	char sub[80];
	strcpy(sub, path);
	P("(");
	for (unsigned long i = 0; i < n; i++) {
		char t[80];
		if (i) P(" ");
		t[0] = 'a'; strcpy(t + 1, sub);           /* a: car of what follows; d: cdr */
		datum(t);
		t[0] = 'd'; strcpy(t + 1, sub);
		strcpy(sub, t);
	}
	P(")");
	leaf[nleaf].kind = 3; strcpy(leaf[nleaf].path, sub); nleaf++;
}
static void path(const char *p) {
	int n = 0;
	for (; *p; p++, n++) P(*p == 'a' ? "(__car " : "(__cdr ");
	P("q");
	while (n--) P(")");
}
static void quoted(int lists, int place) {
	vt_open(0);
	vt_open_out();
	nleaf = 0; nodes = lists; symbols_ok = place != 3;
	vt_n = 0;
	P(place == 0 ? "((__var q (__quote " : place == 1 ? "((__defun f () (__quote " : place == 2 ? "((__defmacro f () (__quote (__quote " : "((__var q (__comptime (__quote ");
	datum("");
	P(place == 0 ? ")) " : place == 1 ? ")) (__var q (f)) " : place == 2 ? "))) (__var q (f)) " : "))) ");
	for (int i = 0; i < nleaf; i++) {
		Leaf *l = &leaf[i];
		if (l->kind == 0) { P("(out "); path(l->path); P(")"); }
		else if (l->kind == 1) { P("(out (__= \""); P(l->name); P("\" "); path(l->path); P("))"); }
		else if (l->kind == 2) { P("(out "); path(l->path); P(")"); P("(out (__= \""); P(l->name); P("\" (__symbol-string "); path(l->path); P(")))"); }
		else { P("(out (__null? "); path(l->path); P("))"); }
	}
	P(" 1)");
	VT_ASSERT(vt_same(vt_value_of(0), vI(1)), "a program with quoted data runs");
	int o = 0;
	for (int i = 0; i < nleaf; i++) {
		Leaf *l = &leaf[i];
		if (l->kind == 0) VT_ASSERT(vt_same(vt_out[o], l->v), "a quoted scalar");
		else if (l->kind == 2) {
			VT_ASSERT(vt_out[o].t == duckVM_object_type_symbol && vt_out[o].i == duckLisp_symbol_nameToValue(&DLC, (dl_uint8_t *) l->name, strlen(l->name)), "a quoted symbol");
			o++;
			VT_ASSERT(vt_same(vt_out[o], vB(1)), "the name of a quoted symbol");
		}
		else VT_ASSERT(vt_same(vt_out[o], vB(1)), l->kind == 1 ? "a quoted string" : "the end of a quoted list");
		o++;
	}
	VT_ASSERT(o == vt_nout, "as many results as leaves");
	vt_close();
	VT_REACH("end");
}
/* @q configs=default,inference max=60 | every quoted datum of at most 2 lists of 1 or 2 elements, leaves of 6 kinds */
void h_quote(void) { quoted(2, 0); }
/* @q configs=default max=60 | the same with 1 list inside a function, returned by a macro and from compile-time code (there without symbols) */
void h_quote_places(void) { int p = 1 + vt_pick(3); quoted(1, p); }
/* @q configs=default tier=thorough tmax=600 | every quoted datum of at most 3 lists */
void h_quote_deep(void) { quoted(3, 0); }
/* @q configs=default kf=comptime-symbol | a symbol returned from compile-time code */
void h_comptime_symbol(void) { vt_open(0); vt_n = 0; P("(__symbol-id (__comptime (__quote a)))"); VT_ASSERT(!vt_run(), "a symbol is returned from compile-time code"); VT_REACH("end"); }
/* @q configs=default kf=comptime-vector | a vector returned from compile-time code */
void h_comptime_vector(void) { vt_open(0); vt_n = 0; P("(__length (__comptime (__vector 1 2)))"); VT_ASSERT(!vt_run(), "a vector is returned from compile-time code"); VT_REACH("end"); }

/* ---- programs spelled with macros ---- */
static int used;
static void m_form(const char *head, int n, int args) {
	P("("); P(head);
	for (int i = 0; i < args; i++) { P(" "); vt_emit(N[n].c[i]); }
	P(")");
}
static void m_emit(int n) {
	Node *x = &N[n];
	const char *nm = vnames[x->name & 7];
	switch (x->k) {
	case K_ADD: m_form("m-add", n, 2); break;
	case K_SUB: m_form("m-sub", n, 2); break;
	case K_LT: m_form("m-lt", n, 2); break;
	case K_EQ: m_form("m-eq", n, 2); break;
	case K_NOT: m_form("m-not", n, 1); break;
	case K_IF: m_form("m-if", n, 3); break;
	case K_WHEN: m_form("m-when", n, 3); break;
	case K_UNLESS: m_form("m-unless", n, 3); break;
	case K_SETQ: P("(m-set "); P(nm); P(" "); vt_emit(x->c[0]); P(")"); break;
	case K_SCOPE: P("(m-let "); P(nm); P(" "); vt_emit(x->c[0]); P(" "); vt_emit(x->c[1]); P(" "); vt_emit(x->c[2]); P(")"); break;
	case K_NOSCOPE: P("((m-new "); P(nm); P(" "); vt_emit(x->c[0]); P(" "); vt_emit(x->c[1]); P(") "); vt_emit(x->c[2]); P(")"); break;
	case K_WHILE: P("(m-rep "); vt_emit(x->c[0]); P(" "); vt_emit(x->c[1]); P(")"); break;
	case K_CALL: P("(m-with "); P(nm); P(" "); vt_emit(x->c[0]); P(" "); vt_emit(x->c[1]); P(")"); break;
	default: emit(n);
	}
}
static void m_prelude(void) {
	static const struct { int k; const char *text; } macros[] = {
		{K_ADD, "(__defmacro m-plus (&rest r) (__cons (__quote __+) r)) (__defmacro m-add (x y) (__list (__quote m-plus) x y))"},
		{K_SUB, "(__defmacro m-sub (&rest r) (__cons (__quote __-) r))"},
		{K_LT, "(__defmacro m-lt (x y) (__list (__quote __<) x y))"},
		{K_EQ, "(__defmacro m-eq (x &rest r) (__cons (intern \"__=\") (__cons x r)))"},
		{K_NOT, "(__defmacro m-not (x) (__list (__quote __not) x))"},
		{K_IF, "(__defmacro m-if (c x y) ((__var z (__list y)) (__setq z (__cons x z)) (__cons (__quote __if) (__cons c z))))"},
		{K_WHEN, "(__defmacro m-when (c &rest r) (__list (__quote __when) c (__car r) (__car (__cdr r))))"},
		{K_UNLESS, "(__defmacro m-unless (c &rest r) (__cons (__quote __unless) (__cons c r)))"},
		{K_SETQ, "(__defmacro m-set (v x) (__list (__quote __setq) v x))"},
		{K_SCOPE, "(__defmacro m-let (v x y z) (__list (__list (__quote __var) v x) y z))"},
		{K_NOSCOPE, "(__defmacro m-new (v x &rest r) (__cons (__quote __noscope) (__cons (__list (__quote __var) v x) r)))"},
		{K_WHILE, "(__defmacro m-rep (x y) (__list (__quote (__var i 0)) (__list (__quote __while) (__quote (__< i (in7))) x (__quote (__setq i (__+ i 1)))) y))"},
		{K_CALL, "(__defmacro m-with (p a b) (__list (__quote __funcall) (__list (__quote __lambda) (__list p) b) a))"},
	};
	for (unsigned i = 0; i < sizeof macros / sizeof *macros; i++) {
		int need = 0;
		for (int n = 0; n < nN; n++) if (N[n].k == macros[i].k) need = 1;
		if (need) { P(macros[i].text); P(" "); }
	}
}
static const int kinds[] = {K_ADD, K_SUB, K_LT, K_EQ, K_NOT, K_IF, K_WHEN, K_UNLESS, K_SETQ, K_SCOPE, K_NOSCOPE, K_WHILE, K_CALL};
static void spelled(int operators, int first) { vt_emit = m_emit; vt_prelude = m_prelude; vt_program(kinds, 13, operators, 0, 2, 3, first); }
/* @q configs=default,inference max=60 reach=end | every program of at most 1 operator spelled with macros (fixed and variadic parameters, interned names, expansion to another macro call), macro calls and variables as arguments, arbitrary inputs */
void h_macro_one(void) { spelled(1, -1); }
/* @q configs=default max=100 reach=end | every such program of 2 operators with +, -, <, = or not at the root */
void h_macro_two_a(void) { int f = kinds[vt_pick(5)]; spelled(2, f); }
/* @q configs=default max=100 reach=end | every such program of 2 operators with if, when, unless or an assignment at the root */
void h_macro_two_b(void) { int f = kinds[5 + vt_pick(4)]; spelled(2, f); }
/* @q configs=default max=100 reach=end | every such program of 2 operators with a scope, noscope, loop or call at the root */
void h_macro_two_c(void) { int f = kinds[9 + vt_pick(4)]; spelled(2, f); }

/* ---- compile-time evaluation ---- */
static void comptime_open(int n) {
	static const char *const names[] = {"in0", "in1", "in2", "in3", "in4", "in5", "in6", "in7"};
	static const vt_callback cbs[] = {vt_cb0, vt_cb1, vt_cb2, vt_cb3, vt_cb4, vt_cb5, vt_cb6, vt_cb7};
	vt_open(n);
	for (int i = 0; i < n; i++) VT_ASSERT(!duckVM_linkCFunction(&DLC.vm, duckLisp_symbol_nameToValue(&DLC, (dl_uint8_t *) names[i], 3), cbs[i]), "a callback links at compile time");
}
static const int ckinds[] = {K_ADD, K_SUB, K_LT, K_EQ, K_NOT, K_IF, K_WHEN, K_UNLESS, K_SETQ, K_SCOPE, K_WHILE, K_CALL, K_LAMBDA};
static void comptime_program(int operators, int first) {
	int root, env = -1;
	comptime_open(8);
	for (npalette = 0; npalette < 13; npalette++) palette[npalette] = ckinds[npalette];
	budget = operators; atom_pick = 0; nin = 3;
	for (nvis = 0; nvis < 2; nvis++) vis[nvis] = nvis;
	if (first >= 0) { budget--; root = gen2(first); }
	else root = gen();
	unsigned long place = vt_pick(3);
	for (int i = 0; i < 3; i++) vt_inputs[i] = vI(vt_range(-200, 200));
	vt_inputs[7] = vI(vt_range(0, 2));
	vt_n = 0;
	P(place == 0 ? "(__comptime ((__var a (in0)) (__var b (in1)) " : place == 1 ? "((__defmacro m (a b) " : "((__var a 55) (__var b 66) (__defun f () (__comptime (__var a (in0)) (__var b (in1)) ");
	emit(root);
	/* literal arguments */
	P(place == 0 ? "))" : place == 1 ? ") (m 70000 -3))" : ")) (f))");
	if (place == 1) { vt_inputs[0] = vI(70000); vt_inputs[1] = vI(-3); }
	for (int i = 0; i < 2; i++) env = bind(env, i, vt_inputs[i]);
	V want = ev(root, env);
	if (r_unspec) { VT_REACH("unspecified"); return; }
	dl_error_t e = vt_compile();
	int fails = r_error || want.t == duckVM_object_type_closure;
	VT_ASSERT(!!e == fails, "compilation fails exactly when the compile-time program does, or returns a function");
	if (!e) {
		VT_ASSERT(!duckVM_execute(&VM, vt_bc, vt_bcn), "the program executes");
		VT_ASSERT(vt_same(vt_top(&VM), want), "the value computed at compile time");
		VT_REACH("end");
	}
	vt_free_bc();
	/* both machines still work */
	VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
	VT_ASSERT(vt_same(vt_value_of("(__+ 1 (__comptime (__+ 2 3)))"), vI(6)), "the compiler works afterwards");
	VT_REACH("again");
}
/* @q configs=default,inference max=60 reach=end,again | every program of at most 1 operator evaluated by comptime, in a macro body and by comptime in a function, arbitrary inputs in -200..200 from host callbacks: the value at run time, or a compilation error exactly when it must fail */
void h_comptime_one(void) { comptime_program(1, -1); }
/* @q configs=default max=100 reach=end,again | every such program of 2 operators with arithmetic or comparison at the root */
void h_comptime_two_a(void) { int f = ckinds[vt_pick(5)]; comptime_program(2, f); }
/* @q configs=default max=100 reach=end,again | every such program of 2 operators with a condition or assignment at the root */
void h_comptime_two_b(void) { int f = ckinds[5 + vt_pick(4)]; comptime_program(2, f); }
/* @q configs=default max=100 reach=end,again | every such program of 2 operators with a scope, loop, call or function at the root */
void h_comptime_two_c(void) { int f = ckinds[9 + vt_pick(4)]; comptime_program(2, f); }

/* @q configs=default max=60 | every arbitrary 32-bit Integer and every Boolean, Float and nil computed at compile time is the same at run time: as value, argument, list element and in a loop */
void h_comptime_values(void) {
	comptime_open(1);
	static const char *const pre[] = {"", "((__var x ", "(__car (__cdr (__list 1 ", "((__var n 0) (__var x 0) (__while (__< n 2) (__setq n (__+ n 1)) (__setq x "};
	static const char *const post[] = {"", ") x)", " 3)))", ")) x)"};
	unsigned long p = vt_pick(4);
	vt_inputs[0] = vt_value(4);
	if (vt_inputs[0].t == duckVM_object_type_integer) VT_ASSUME(vt_inputs[0].i >= -2147483648L && vt_inputs[0].i <= 2147483647L);
	vt_n = 0;
	P(pre[p]); P("(__comptime (in0))"); P(post[p]);
	VT_ASSERT(vt_same(vt_value_of(0), vt_inputs[0]), "a value computed at compile time");
	vt_close();
	VT_REACH("end");
}

/* ---- compile-time state ---- */
/* @q configs=default,inference max=60 tconfigs=default,inference,no-optimize | every history of 3 compilations out of 9 kinds that define, assign and read compile-time globals and the run-time global of the same name, directly, in comptime functions and in macros */
void h_state(void) {
	long ct = 5, rt = 0;
	int hasrt = 0;
	vt_open(0);
	VT_ASSERT(!vt_do("(__comptime (__global g 5) ())"), "a compile-time global is defined");
	VT_ASSERT(!vt_do("(__comptime (__global bump (__lambda (n) (__setq g (__+ g n)))) ())"), "a compile-time function is defined");
	VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
	for (int s = 0; s < 3; s++) {
		const char *t = 0;
		V w = vI(0);
		switch (vt_pick(9)) {
		case 0: t = "(__comptime (__setq g 100))"; ct = 100; w = vI(100); break;
		case 1: t = "(__comptime (__+ g 0))"; w = vI(ct); break;
		case 2: t = "((__defmacro next () (__setq g (__+ g 1)) g) (__+ (next) (next)))"; ct += 2; w = vI(ct + ct - 1); break;
		case 3: t = "(__global g 40)"; rt = 40; hasrt = 1; w = vI(40); break;
		case 4: t = "(__+ g 0)"; if (!hasrt) { VT_ASSERT(vt_do(t), "the run-time global is not defined"); VT_ASSERT(!duckVM_softReset(&VM), "reset"); t = 0; } w = vI(rt); break;
		case 5: t = "((__defmacro add (n) (__setq g (__+ g n))) (__+ (add 10) (__comptime (__setq g (__+ g 5)))))"; ct += 10; w.i = ct; ct += 5; w.i += ct; break;
		case 6: t = "(__comptime (bump 3))"; ct += 3; w = vI(ct); break;
		case 7: t = "(__setq g (__comptime (bump 2)))"; ct += 2; rt = ct; hasrt = 1; w = vI(rt); break;
		default: t = "((__defun f () (__comptime (bump 1))) (__+ (f) (f)))"; ct += 1; w = vI(2 * ct); break;
		}
		if (t) VT_ASSERT(vt_same(vt_value_of(t), w), "compile-time globals persist and are separate from run-time globals");
	}
	vt_close();
	VT_REACH("end");
}

/* ---- gensym, intern, read ---- */
/* @q configs=default,inference max=60 | macros that use 1 or 2 generated names as variables, nested and repeated, never capture the variables of their caller, arbitrary inputs */
void h_gensym(void) {
	static const char *const swap = "(__defmacro swap (x y) ((__var t (gensym)) (__list (__list (__quote __var) t x) (__list (__quote __setq) x y) (__list (__quote __setq) y t)))) ";
	static const char *const max = "(__defmacro max (x y) ((__var p (gensym)) (__var q (gensym)) (__list (__list (__quote __var) p x) (__list (__quote __var) q y) (__list (__quote __if) (__list (__quote __<) p q) q p)))) ";
	vt_open(3);
	vt_open_out();
	for (int i = 0; i < 3; i++) vt_inputs[i] = vI((long) vt_draw());
	long a = vt_inputs[0].i, b = vt_inputs[1].i, c = vt_inputs[2].i, x, y, z;
	unsigned long k = vt_pick(6);
	vt_n = 0;
	P("("); P(swap); P(max); P("(__var a (in0)) (__var b (in1)) (__var t (in2)) ");
	x = a; y = b; z = c;
#define MAX(p, q) ((p) < (q) ? (q) : (p))
	switch (k) {
	case 0: P("(swap a b)"); x = b; y = a; break;
	case 1: P("(swap a b) (swap b t) "); x = b; y = c; z = a; break;
	case 2: P("(__setq a (max b t))"); x = MAX(b, c); break;
	case 3: P("(__setq a (max (max a b) (max b t)))"); x = MAX(MAX(a, b), MAX(b, c)); break;
	case 4: P("(__setq t (__funcall (__lambda (v) (max v (max a t))) b))"); z = MAX(b, MAX(a, c)); break;
	default: P("((__var p a) (__var q b) (swap p q) (__setq a (max p t)) (__setq b q))"); x = MAX(b, c); y = a; break;
	}
	P("(out a) (out b) (out t) 1)");
	VT_ASSERT(vt_same(vt_value_of(0), vI(1)), "the program runs");
	VT_ASSERT(vt_nout == 3 && vt_same(vt_out[0], vI(x)) && vt_same(vt_out[1], vI(y)) && vt_same(vt_out[2], vI(z)), "the variables afterwards");
	vt_close();
	VT_REACH("end");
}
/* @q configs=default max=60 | any 4 names generated in one or several compilations, in macros and in comptime, are pairwise different and different from the names in the program */
void h_gensym_unique(void) {
	vt_open(0);
	vt_open_out();
	unsigned long n = 0;
	while (n < 4) {
		switch (vt_pick(3)) {
		case 0: VT_ASSERT(!vt_do("((__defmacro m () (__list (__quote __quote) (gensym))) (out (m)) 1)"), "runs"); n++; break;
		case 1: VT_ASSERT(!vt_do("((__defmacro m () (__list (__quote __quote) (gensym))) (out (m)) (out (m)) 1)"), "runs"); n += 2; break;
		default: VT_ASSERT(!vt_do("((__defmacro m () ((__var a (gensym)) (__var b (gensym)) (__list (__quote __noscope) (__list (__quote out) (__list (__quote __quote) b)) (__list (__quote out) (__list (__quote __quote) a))))) (m) 1)"), "runs"); n += 2; break;
		}
		VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
	}
	VT_ASSERT(vt_nout == (int) n, "as many results");
	for (int i = 0; i < vt_nout; i++) {
		VT_ASSERT(vt_out[i].t == duckVM_object_type_symbol, "a symbol");
		for (int j = 0; j < i; j++) VT_ASSERT(vt_out[i].i != vt_out[j].i, "generated names are different");
	}
	vt_close();
	VT_REACH("end");
}
static void name_bytes(unsigned char *c, unsigned long n) {
	for (unsigned long i = 0; i < n; i++) { c[i] = vt_byte(); VT_ASSUME(c[i] > ';' && c[i] != '\\'); }
}
/* @q configs=default max=60 | intern of a string of 1 to 3 arbitrary name bytes is the symbol written with those bytes, different from the symbol of another string, and keeps its name and id at run time */
void h_intern(void) {
	vt_open(0);
	vt_open_out();
	unsigned char c[3];
	unsigned long n = 1 + vt_pick(3), k = vt_pick(4);
	name_bytes(c, n);
#define NAME for (unsigned long i = 0; i < n; i++) PC(c[i])
	vt_n = 0;
	if (k == 0) { P("(out (__comptime (__= (intern \""); NAME; P("\") (__quote "); NAME; P("))))"); }
	else if (k == 1) { P("(out (__comptime (__= (intern \""); NAME; P("\") (intern \""); NAME; P("x\"))))"); }
	else if (k == 2) { P("((__defmacro m () (__list (__quote __quote) (intern \""); NAME; P("\"))) (out (__= (m) (__quote "); NAME; P("))))"); }
	else { P("((__defmacro m (s) (__list (__quote __quote) (intern s))) (out (__= (__symbol-string (m \""); NAME; P("\")) \""); NAME; P("\")))"); }
	VT_ASSERT(!vt_run(), "the program runs");
	VT_ASSERT(vt_nout == 1 && vt_same(vt_out[0], vB(k != 1)), "an interned symbol");
	VT_REACH("end");
}
/* @q configs=default max=60 | read of the text of a program with 2 arbitrary digits gives its syntax tree (evaluated through a macro), of unreadable text an error code and nil */
void h_read(void) {
	vt_open(0);
	vt_open_out();
	static const char *const bad[] = {"(", ")", "(1", "(()", "\\\"a", "(1 \\\"a)", ""};
	unsigned long k = vt_pick(4);
	unsigned char d[2];
	long x = 0;
	for (int i = 0; i < 2; i++) { d[i] = vt_byte(); VT_ASSUME(d[i] >= '0' && d[i] <= '9'); x = 10 * x + d[i] - '0'; }
	vt_n = 0;
	if (k == 0) { P("((__defmacro rd (s) (__car (read s false))) (out (rd \"(__+ "); PC(d[0]); PC(d[1]); P(" 1)\")))"); }
	else if (k == 1) { P("((__defmacro rd (s) (__car (read s false))) (__var y 7) (out (rd \"((__var x "); PC(d[0]); PC(d[1]); P(") (__+ x y))\")))"); x += 6; }
	else if (k == 2) { P("(out (__comptime ((__var r (read \"(a "); PC(d[0]); PC(d[1]); P(" \\\"s\\\")\" false)) (__if (__= (__cdr r) 0) (__+ 1 (__car (__cdr (__car r)))) -1))))"); }
	else { P("(out (__comptime ((__var r (read \""); P(bad[vt_pick(6)]); P("\" false)) (__if (__null? (__car r)) (__= 0 (__cdr r)) true))))"); }
	VT_ASSERT(!vt_run(), "the program runs");
	VT_ASSERT(vt_nout == 1 && vt_same(vt_out[0], k == 3 ? vB(0) : vI(x + 1)), "what was read");
	VT_REACH("end");
}

/* ---- errors ---- */
/* @q configs=default,inference max=60 reach=end | a macro or comptime form that fails (12 ways, at 3 nesting depths), arbitrary wrong argument counts: a compilation error, after which the compiler, its macros and the VM work */
void h_errors(void) {
	static const char *const bad[] = {
		"((__defmacro m () (__car 5)) (m))", "((__defmacro m (a) a) (m))", "((__defmacro m (a) a) (m 1 2))", "((__defmacro m (a &rest b) a) (m))",
		"((__defmacro m () (__lambda () 1)) (m))", "((__defmacro m () (__error \"no\")) (m))", "(__comptime (undefined-function 1))", "(__comptime (__lambda () 1))",
		"(__comptime (__/ 1 0))", "((__defmacro m () (__quote (__if 1))) (m))", "((__defmacro m () (__vector 1)) (m))", "(__error \"no\")"};
	static const char *const pre[] = {"", "((__var x 1) (__+ x ", "(__funcall (__lambda (y) (__while y (__setq y false) "};
	static const char *const post[] = {"", "))", ")) true)"};
	vt_open(1);
	vt_inputs[0] = vI((long) vt_draw());
	unsigned long k = vt_pick(12), p = vt_pick(3);
	int rounds = 1 + vt_pick(2);
	for (int i = 0; i < rounds; i++) {
		vt_n = 0;
		P(pre[p]); P(bad[k]); P(post[p]);
		VT_ASSERT(vt_compile(), "a failing macro or comptime form is a compilation error");
		vt_free_bc();
		VT_ASSERT(vt_same(vt_value_of("((__defmacro m (a &rest r) (__if (__null? r) a (__list (__quote __+) a (__cons (__quote m) r)))) (__var y 2) (m (in0) 1 y))"), vI(vt_inputs[0].i + 3)), "the compiler works afterwards");
	}
	VT_REACH("end");
}
/* @q configs=default,inference max=60 | macros that call themselves: recursion over 0 to 4 arguments by expansion, by self and by apply self, sum of arbitrary inputs */
void h_recursion(void) {
	static const char *const def[] = {
		"(__defmacro sum (&rest r) (__if (__null? r) 0 (__list (__quote __+) (__car r) (__cons (__quote sum) (__cdr r))))) ",
		"(__defmacro sum (&rest r) (__if (__null? r) 0 (__list (__quote __+) (__car r) (__apply self (__cdr r))))) ",
		"(__defmacro s1 (r) (__if (__null? r) 0 (__list (__quote __+) (__car r) (self (__cdr r))))) (__defmacro sum (&rest r) (__list (__quote s1) r)) "};
	vt_open(5);
	for (int i = 0; i < 5; i++) vt_inputs[i] = vI((long) vt_draw());
	unsigned long d = vt_pick(3), n = vt_pick(5), lam = vt_pick(2);
	long want = 0;
	vt_n = 0;
	P("("); P(def[d]);
	if (lam) P("(__defun f (x) ");
	P("(sum");
	for (unsigned long i = 0; i < n; i++) { if (i == 3 && lam) { P(" x"); want += vt_inputs[4].i; } else { P(" (in"); PU(i); P(")"); want += vt_inputs[i].i; } }
	P(")");
	if (lam) P(") (f (in4))");
	P(")");
	VT_ASSERT(vt_same(vt_value_of(0), vI(want)), "a recursive macro");
	vt_close();
	VT_REACH("end");
}
/* @q configs=default,inference max=60 | variables, functions and parameters named like a macro or keyword shadow it inside their scope only; a macro redefined in an inner scope; funcall of a macro at compile time */
void h_shadow(void) {
	static const char *const text[] = {
		"((__defmacro m (x) (__list (__quote __+) x 1)) ((__defun m (x) (__- x 1)) (out (m (in0)))) (out (m (in0))) 1)",
		"((__defmacro m (x) (__list (__quote __+) x 1)) ((__defmacro m (x) (__list (__quote __- ) x 1)) (out (m (in0)))) (out (m (in0))) 1)",
		"((__defun m (x) (__- x 1)) (out (m (in0))) ((__defmacro m (x) (__list (__quote __+) x 1)) (out (m (in0)))) 1)",
		"((__defmacro m (x) (__list (__quote __+) x 1)) (out (__funcall (__lambda (m) (__- m 1)) (in0))) (out (m (in0))) 1)",
		"((__defun __when (x) (__- x 1)) (out (__when (in0))) (out (__+ (in0) 1)) 1)",
		"((__defmacro m (x) (__list (__quote __+) x 1)) (out (__- (in0) 1)) (out (__+ (__comptime (__+ 0 (__car (__cdr (__cdr (__funcall m (__quote y))))))) (in0))) 1)"};
	vt_open(1);
	vt_open_out();
	vt_inputs[0] = vI((long) vt_draw());
	unsigned long k = vt_pick(6);
	VT_ASSERT(vt_same(vt_value_of(text[k]), vI(1)), "the program runs");
	VT_ASSERT(vt_nout == 2 && vt_same(vt_out[0], vI(vt_inputs[0].i - 1)) && vt_same(vt_out[1], vI(vt_inputs[0].i + 1)), "the innermost definition is used");
	vt_close();
	VT_REACH("end");
}
