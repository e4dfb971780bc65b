/* Strings, symbols, types and composites. */
#include "vt_dl.h"

/* A string variable is built from arbitrary bytes; S is its reference. */
typedef struct { unsigned char c[16]; int n; } S;
static S a, b;
static int used;
static void input(void) { P("(in"); PU(used); P(")"); used++; }
/* (__make-string (__list|__vector in..)) of n arbitrary Integers; the string holds their low bytes */
static void text_of(S *s, int n, int vector) {
	P(vector ? "(__make-string (__vector" : "(__make-string (__list");
	for (int i = 0; i < n; i++) { vt_inputs[used] = vI((long) vt_draw()); s->c[i] = (unsigned char) vt_inputs[used].i; P(" "); input(); }
	P("))");
	s->n = n;
}
/* Reports length and every byte of the string in variable v. */
static void dump_text(const char *v) {
	P("(out (__length "); P(v); P(")) (out (__null? "); P(v); P(")) (__while (__< 0 (__length "); P(v); P(")) (out (__car "); P(v); P(")) (__setq "); P(v); P(" (__cdr "); P(v); P("))) ");
}
static int check(int k, S *s) {
	VT_ASSERT(vt_nout >= k + 2 + s->n, "everything is reported");
	VT_ASSERT(vt_same(vt_out[k], vI(s->n)), "length of a string");
	VT_ASSERT(vt_same(vt_out[k + 1], vB(s->n == 0)), "null? of a string");
	for (int i = 0; i < s->n; i++) VT_ASSERT(vt_same(vt_out[k + 2 + i], vI(s->c[i])), "the bytes of a string");
	return k + 2 + s->n;
}
static void start(void) { vt_open(10); vt_open_out(); vt_n = 0; used = 0; }
static void finish(int k) {
	VT_ASSERT(vt_same(vt_value_of(0), vI(5)), "the value of the program");
	VT_ASSERT(vt_nout == k, "nothing else is reported");
}
static void expect_error(void) {
	dl_error_t e = vt_compile();
	VT_ASSERT(!e, "the program compiles");
	e = duckVM_execute(&VM, vt_bc, vt_bcn);
	vt_free_bc();
	VT_ASSERT(e, "an operation outside its domain is an error");
	VT_ASSERT(!duckVM_softReset(&VM), "the VM can be reset");
	VT_ASSERT(vt_same(vt_value_of("((__defun ok (x) (__+ x 1)) (ok 4))"), vI(5)), "the VM works after the error");
}
/* @q configs=default,inference tconfigs=default,inference,no-optimize,portable | make-string of a list or vector of 0 to 4 arbitrary Integers */
void h_make(void) {
	start();
	unsigned long n = vt_pick(5), vector = vt_pick(2);
	P("((__var a "); text_of(&a, n, vector); P(") "); dump_text("a"); P("5)");
	VT_ASSERT(vt_same(vt_value_of(0), vI(5)), "the value of the program");
	VT_ASSERT(check(0, &a) == vt_nout, "nothing else is reported");
	VT_REACH("end");
}
/* @q configs=default | make-string of a list or vector in which one of 1 to 3 elements is a Boolean, double or nil, of a dotted list, of the tail of a vector, or of an arbitrary scalar */
void h_make_bad(void) {
	start();
	unsigned long k = vt_pick(5), n = 1 + vt_pick(3), at = vt_pick(n);
	if (k < 2) {
		P("((__var a (__make-string "); P(k ? "(__list" : "(__vector");
		for (unsigned long i = 0; i < n; i++) {
			vt_inputs[i] = vI((long) vt_draw());
			if (i == at) { unsigned long t = vt_pick(3); vt_inputs[i] = t == 0 ? vB(vt_pick(2)) : t == 1 ? vF(vt_double()) : vN(); }
			P(" "); input();
		}
		P("))) a)");
		expect_error();
	} else if (k == 2) { P("(__make-string (__cons 1 2))"); expect_error(); }
	else if (k == 3) { vt_inputs[0] = vt_value(3); P("(__make-string (in0))"); expect_error(); }
	else {
		/* the tails of a vector of three */
		P("((__var v (__vector "); input(); P(" "); input(); P(" "); input(); P(")) ");
		for (int i = 0; i < 3; i++) vt_inputs[i] = vI((long) vt_draw());
		for (unsigned long i = 0; i < n; i++) P("(__setq v (__cdr v)) ");
		P("(__var a (__make-string v)) "); dump_text("a"); P("5)");
		a.n = 3 - n;
		for (int i = 0; i < a.n; i++) a.c[i] = (unsigned char) vt_inputs[n + i].i;
		VT_ASSERT(vt_same(vt_value_of(0), vI(5)), "the value of the program");
		check(0, &a);
	}
	VT_REACH("end");
}
/* @q configs=default,inference max=90 | concatenation of two strings of 0 to 3 arbitrary bytes after 0 to 2 cdrs each; both operands stay as they were */
void h_concatenate(void) {
	start();
	unsigned long n = vt_pick(4), m = vt_pick(4), i = vt_pick(3), j = vt_pick(3);
	P("((__var a "); text_of(&a, n, 0); P(") (__var b "); text_of(&b, m, 1); P(") ");
	for (unsigned long k = 0; k < i; k++) P("(__setq a (__cdr a)) ");
	for (unsigned long k = 0; k < j; k++) P("(__setq b (__cdr b)) ");
	P("(__var c (__concatenate a b)) "); dump_text("c"); dump_text("a"); dump_text("b"); P("5)");
	S x = {{0}, 0}, y = {{0}, 0}, z = {{0}, 0};
	for (unsigned long k = i; k < n; k++) x.c[x.n++] = a.c[k];
	for (unsigned long k = j; k < m; k++) y.c[y.n++] = b.c[k];
	for (int k = 0; k < x.n; k++) z.c[z.n++] = x.c[k];
	for (int k = 0; k < y.n; k++) z.c[z.n++] = y.c[k];
	VT_ASSERT(vt_same(vt_value_of(0), vI(5)), "the value of the program");
	VT_ASSERT(check(check(check(0, &z), &x), &y) == vt_nout, "nothing else is reported");
	VT_REACH("end");
}
/* @q configs=default,inference reach=end,error | substring of a string of 0 to 4 arbitrary bytes, itself after 0 or 1 cdr, at two arbitrary 64-bit indexes, then concatenated with another string */
void h_substring(void) {
	start();
	unsigned long n = vt_pick(5), i = vt_pick(2), again = vt_pick(2);
	long s = (long) vt_draw(), e = (long) vt_draw();
	P("((__var a "); text_of(&a, n, 0); P(") ");
	if (i) P("(__setq a (__cdr a)) ");
	vt_inputs[8] = vI(s);
	vt_inputs[9] = vI(e);
	P("(__var c (__substring a (in8) (in9))) (__var d c) "); if (again) P("(__setq d (__concatenate c \"xy\")) "); dump_text("d"); dump_text("c"); dump_text("a"); P("5)");
	S x = {{0}, 0}, y = {{0}, 0}, z = {{0}, 0};
	for (unsigned long k = i; k < n; k++) x.c[x.n++] = a.c[k];
	if (s < 0 || e < s || e > x.n) { expect_error(); VT_REACH("error"); return; }
	s = vt_concrete(s);
	e = vt_concrete(e);
	for (long k = s; k < e; k++) y.c[y.n++] = x.c[k];
	for (int k = 0; k < y.n; k++) z.c[z.n++] = y.c[k];
	if (again) { z.c[z.n++] = 'x'; z.c[z.n++] = 'y'; }
	VT_ASSERT(vt_same(vt_value_of(0), vI(5)), "the value of the program");
	VT_ASSERT(check(check(check(0, &z), &y), &x) == vt_nout, "nothing else is reported");
	VT_REACH("end");
}
/* @q configs=default reach=end,error | get-vector-element on a string of 0 to 4 arbitrary bytes after 0 to 2 cdrs or a substring, at an arbitrary 64-bit index */
void h_element(void) {
	start();
	unsigned long n = vt_pick(5), i = vt_pick(4);
	long s = (long) vt_draw();
	P("((__var a "); text_of(&a, n, 0); P(") ");
	int from = i, to = n;
	if (i == 3) { VT_ASSUME(n > 1); P("(__setq a (__substring a 1 (__- (__length a) 1))) "); from = 1; to = n - 1; }
	else for (unsigned long k = 0; k < i; k++) P("(__setq a (__cdr a)) ");
	vt_inputs[9] = vI(s);
	P("(__get-vector-element a (in9)))");
	if (s < 0 || s >= (from < to ? to - from : 0)) { expect_error(); VT_REACH("error"); return; }
	VT_ASSERT(vt_same(vt_value_of(0), vI(a.c[from + vt_concrete(s)])), "the byte at the index");
	VT_REACH("end");
}
/* @q configs=default,no-optimize max=90 | equality of two strings of 0 to 3 arbitrary bytes, each possibly a substring of a longer one */
void h_equal(void) {
	start();
	unsigned long n = vt_pick(4), m = vt_pick(4), cut = vt_pick(3);
	P("((__var a "); text_of(&a, n, 0); P(") (__var b "); text_of(&b, m, 0); P(") ");
	int sa = 0, ea = n, sb = 0, eb = m;
	if (cut == 1 && n) { P("(__setq a (__cdr a)) "); sa = 1; }
	if (cut == 2 && m) { P("(__setq b (__substring b 0 (__- (__length b) 1))) "); eb = m - 1; }
	P("(__= a b))");
	int want = ea - sa == eb - sb;
	for (int i = 0; want && i < ea - sa; i++) want = a.c[sa + i] == b.c[sb + i];
	VT_ASSERT(vt_same(vt_value_of(0), vB(want)), "strings are equal when their bytes are");
	VT_REACH("end");
}
static const char *const syms[] = {"x", "xy", "yx", "longer-name", "X"};
/* @q configs=default,inference,portable tconfigs=default,inference,portable,no-optimize | every pair of 5 symbols: identity, ids, names and concatenation with each other and with strings */
void h_symbol(void) {
	start();
	unsigned long i = vt_pick(5), j = vt_pick(5), k = vt_pick(4);
	const char *x = syms[i], *y = syms[j];
	switch (k) {
	case 0: P("(__= (__quote "); P(x); P(") (__quote "); P(y); P("))"); VT_ASSERT(vt_same(vt_value_of(0), vB(i == j)), "symbols are equal when their names are"); break;
	case 1: P("(__= (__symbol-id (__quote "); P(x); P(")) (__symbol-id (__quote "); P(y); P(")))"); VT_ASSERT(vt_same(vt_value_of(0), vB(i == j)), "symbol ids are unique"); break;
	case 2: P("(__= (__symbol-string (__quote "); P(x); P(")) \""); P(y); P("\")"); VT_ASSERT(vt_same(vt_value_of(0), vB(i == j)), "the name of a symbol"); break;
	default: {
		unsigned long m = vt_pick(4);
		P("(__= (__concatenate "); if (m & 1) { P("(__quote "); P(x); P(") "); } else { P("\""); P(x); P("\" "); }
		if (m & 2) { P("(__quote "); P(y); P(")"); } else { P("\""); P(y); P("\""); }
		P(") \""); P(x); P(y); P("\")");
		VT_ASSERT(vt_same(vt_value_of(0), vB(1)), "concatenation of names");
	}
	}
	VT_REACH("end");
}
static dl_size_t nameless_id;
static dl_error_t cb_nameless(duckVM_t *vm) { return duckVM_pushCompressedSymbol(vm, nameless_id); }
static dl_error_t cb_named(duckVM_t *vm) { return duckVM_pushSymbol(vm, nameless_id, (dl_uint8_t *) "nm", 2); }
/* @q configs=default,inference,no-optimize reach=end,stripped | symbols without a name, from programs compiled without symbol names and made by the host with an arbitrary number: 20 uses; their names are empty */
void h_nameless(void) {
	static const struct { const char *a, *b; } uses[] = {
		{"(__= (__symbol-string ", ") \"\")"}, {"(__= 0 (__length (__symbol-string ", ")))"}, {"(__null? (__symbol-string ", "))"},
		{"(__= (__concatenate ", " \"ab\") \"ab\")"}, {"(__= (__concatenate \"ab\" ", ") \"ab\")"},
		{"((__var x ", ") (__= (__concatenate x x) \"\"))"}, {"(__= (__concatenate (__symbol-string ", ") \"c\") \"c\")"},
		{"(__= (__substring (__symbol-string ", ") 0 0) \"\")"}, {"(__= (__concatenate \"c\" (__symbol-string ", ")) \"c\")"},
		{"((__var x ", ") (__= x x))"}, {"((__var x ", ") (__= (__symbol-id x) (__symbol-id x)))"}, {"(__not (__= ", " \"\"))"},
		{"(__= (__type-of ", ") (__type-of (__quote a)))"}, {"((__var v (__vector ", ")) (__= (__get-vector-element v 0) (__get-vector-element v 0)))"},
		{"((__var l (__list ", " 1)) (__= (__car l) (__car l)))"}, {"(__= (__concatenate (named) ", ") \"nm\")"},
		{"(__= (__concatenate ", " (named)) \"nm\")"}, {"(__= (named) ", ")"}, {"((__setq g ", ") (__= g g))"}, {"(__if ", " true false)"},
	};
	vt_open(1);
	VT_ASSERT(!vt_link("nameless", cb_nameless, "()"), "callback links");
	VT_ASSERT(!vt_link("named", cb_named, "()"), "callback links");
	unsigned long k = vt_pick(20);
	nameless_id = vt_draw();
	P(uses[k].a);
	int stripped = (int) vt_pick(2);
	if (k == 17) VT_ASSUME(!stripped);      /* the same number is the same symbol */
	if (!stripped) P("(nameless)");
	else {
		DLC.stripSymbolNames = dl_true;
		VT_REACH("stripped");
		P(vt_pick(2) ? "(__quote some-name)" : "(__car (__quote (b c)))");
	}
	P(uses[k].b);
	VT_ASSERT(vt_same(vt_value_of(0), vB(1)), "a symbol without a name");
	VT_ASSERT(vt_same(vt_value_of("(__+ 1 2)"), vI(3)), "the VM is usable");
	VT_REACH("end");
}
/* @q configs=default,inference | string and symbol operations on an arbitrary Integer, Boolean or double and on nil, in either operand position: errors, VM usable */
void h_not_string(void) {
	static const char *const ops[] = {"(__concatenate (in0) \"a\")", "(__concatenate \"a\" (in0))", "(__substring (in0) 0 0)", "(__substring \"abc\" (in0) 2)", "(__substring \"abc\" 1 (in0))", "(__symbol-string (in0))", "(__symbol-id (in0))", "(__symbol-string \"a\")", "(__symbol-id \"a\")", "(__get-vector-element \"abc\" (in0))"};
	start();
	unsigned long k = vt_pick(10);
	vt_inputs[0] = vt_value(4);
	if ((k == 3 || k == 4 || k == 9)) VT_ASSUME(vt_inputs[0].t != duckVM_object_type_integer);
	P(ops[k]);
	expect_error();
	VT_REACH("end");
}
/* @q configs=default,inference | type-of every pair of 14 values of all kinds, including arbitrary Integers, doubles, Booleans: equal exactly when the kinds are; composites report their own type */
void h_type_of(void) {
	static const struct { const char *s; int kind; } things[] = {{"(in0)", 0}, {"(in1)", 0}, {"(in2)", 1}, {"(in3)", 2}, {"true", 2}, {"()", 3}, {"(__list 1)", 3}, {"(__vector 1)", 4}, {"\"s\"", 5}, {"(__quote s)", 6}, {"(__lambda (x) x)", 7}, {"(__make-type)", 8}, {"u", 8}, {"(__make-instance t 1 2)", 9}, {"(__make-instance u 1 2)", 10}, {"(__make-instance t 3 ())", 9}};
	start();
	unsigned long i = vt_pick(16), j = vt_pick(16);
	vt_inputs[0] = vI((long) vt_draw()); vt_inputs[1] = vI((long) vt_draw()); vt_inputs[2] = vF(vt_double()); vt_inputs[3] = vB(vt_pick(2));
	P("((__var t (__make-type)) (__var u (__make-type)) (__var x "); P(things[i].s); P(") (__var y "); P(things[j].s); P(") (__= (__type-of x) (__type-of y)))");
	VT_ASSERT(vt_same(vt_value_of(0), vB(things[i].kind == things[j].kind)), "the type of a value depends on its kind alone");
	VT_REACH("end");
}
/* @q configs=default,inference tconfigs=default,inference,no-optimize | histories of 3 operations (new type, set value, set function, share, new instance, read) on two composites with arbitrary scalar contents */
void h_composite(void) {
	start();
	V val[2], fun[2];
	int at[2] = {0, 1}, type[2] = {0, 1}, outs = 0;
	V want[8];
	P("((__var t (__make-type)) (__var u (__make-type)) (__var a (__make-instance t "); input(); P(" "); input(); P(")) (__var b (__make-instance u "); input(); P(" "); input(); P(")) ");
	for (int i = 0; i < 4; i++) vt_inputs[i] = vI((long) vt_draw());
	val[0] = vt_inputs[0]; fun[0] = vt_inputs[1]; val[1] = vt_inputs[2]; fun[1] = vt_inputs[3];
	for (int s = 0; s < 3; s++) {
		unsigned long op = vt_pick(10);
		int v = op & 1;
		const char *n = v ? "b" : "a";
		switch (op >> 1) {
		case 0: P("(__set-composite-value "); P(n); P(" "); vt_inputs[used] = s ? vI((long) vt_draw()) : vt_value(4); val[at[v]] = vt_inputs[used]; input(); P(") "); break;
		case 1: P("(__set-composite-function "); P(n); P(" "); vt_inputs[used] = s ? vI((long) vt_draw()) : vt_value(4); fun[at[v]] = vt_inputs[used]; input(); P(") "); break;
		case 2: P("(__setq "); P(n); P(v ? " a) " : " b) "); at[v] = at[!v]; break;
		case 3: P("(out (__composite-value "); P(n); P(")) "); want[outs++] = val[at[v]]; break;
		default: P("(out (__composite-function "); P(n); P(")) "); want[outs++] = fun[at[v]]; break;
		}
	}
	P("(out (__composite-value a)) (out (__composite-function a)) (out (__= (__type-of a) t)) (out (__composite-value b)) (out (__composite-function b)) (out (__= (__type-of b) u)) 5)");
	VT_ASSERT(vt_same(vt_value_of(0), vI(5)), "the value of the program");
	VT_ASSERT(vt_nout == outs + 6, "everything is reported");
	for (int i = 0; i < outs; i++) VT_ASSERT(vt_same(vt_out[i], want[i]), "a slot holds what was last stored there");
	VT_ASSERT(vt_same(vt_out[outs], val[at[0]]) && vt_same(vt_out[outs + 1], fun[at[0]]), "slots of the first composite");
	VT_ASSERT(vt_same(vt_out[outs + 2], vB(type[at[0]] == 0)), "type of the first composite");
	VT_ASSERT(vt_same(vt_out[outs + 3], val[at[1]]) && vt_same(vt_out[outs + 4], fun[at[1]]), "slots of the second composite");
	VT_ASSERT(vt_same(vt_out[outs + 5], vB(type[at[1]] == 1)), "type of the second composite");
	VT_REACH("end");
}
/* @q configs=default | composite operations on an arbitrary scalar, list, vector, string, symbol or type, make-instance of a value that is not a type or of a built-in type: errors, VM usable */
void h_not_composite(void) {
	static const char *const things[] = {"(in0)", "()", "(__list 1)", "(__vector 1)", "\"s\"", "(__quote s)", "(__make-type)"};
	static const char *const ops[] = {"(__composite-value x)", "(__composite-function x)", "(__set-composite-value x 1)", "(__set-composite-function x 1)", "(__make-instance x 1 2)", "(__make-instance (__type-of x) 1 2)"};
	start();
	unsigned long k = vt_pick(7), o = vt_pick(6);
	VT_ASSUME(!(k == 6 && o == 4));
	vt_inputs[0] = vt_value(3);
	P("((__var x "); P(things[k]); P(") "); P(ops[o]); P(")");
	expect_error();
	VT_REACH("end");
}
