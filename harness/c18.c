/* Programs of any size: operands at any distance, jumps of any length, any number of names. */
#define VT_MAXOBJ 1000
#define VT_SRCMAX 400000
#define VT_OUTS 600
#include "vt_dl.h"
#include "emitters.h"

/* (pad) stands for `padding` variables: a host generator that calls a host function which pushes them, and leaves an empty (noscope), which lets them stay. */
static long padding;
static dl_error_t cb_pad(duckVM_t *vm) {
	dl_error_t e = dl_error_ok;
	for (long i = 0; i < padding && !e; i++) { e = duckVM_pushInteger(vm); if (!e) e = duckVM_setInteger(vm, 7); }
	return e;
}
static dl_ptrdiff_t pad_id;
static dl_error_t g_pad(duckLisp_t *d, duckLisp_compileState_t *s, dl_array_t *assembly, duckLisp_ast_expression_t *x) {
	dl_size_t n = duckLisp_localsLength_get(s) + padding;
	dl_error_t e = duckLisp_emit_ccall(d, s, assembly, pad_id);
	if (e) return e;
	while (duckLisp_localsLength_get(s) < n) duckLisp_localsLength_increment(s);
	while (duckLisp_localsLength_get(s) > n) duckLisp_localsLength_decrement(s);
	dl_uint8_t *head = NULL;
	if ((e = DL_MALLOC(d->memoryAllocation, &head, 9, dl_uint8_t))) return e;
	memcpy(head, "__noscope", 9);
	if ((e = DL_FREE(d->memoryAllocation, &x->compoundExpressions[0].value.identifier.value))) return e;
	x->compoundExpressions[0].value.identifier.value = head;
	x->compoundExpressions[0].value.identifier.value_length = 9;
	return e;
}
/* (far): the padding is really there. */
static dl_error_t cb_far(duckVM_t *vm) { VT_ASSERT(duckVM_stackLength(vm) >= (dl_size_t) padding + 20, "the padding is on the stack"); VT_REACH("far"); return duckVM_pushNil(vm); }
static void open_pad(void) {
	VT_ASSERT(!vt_link("far", cb_far, "()"), "callback links");
	VT_ASSERT(!vt_link("pad-objects", cb_pad, "()"), "callback links");
	pad_id = duckLisp_symbol_nameToValue(&DLC, (dl_uint8_t *) "pad-objects", 11);
	VT_ASSERT(!duckLisp_addGenerator(&DLC, g_pad, (dl_uint8_t *) "pad", 3
#ifdef USE_PARENTHESIS_INFERENCE
	                                 , (dl_uint8_t *) "()", 2, (dl_uint8_t *) "", 0
#endif
	                                 ), "generator links");
}

/* Every operation, each of its operands (@x; $x is where the first one is) beyond the padding or before it. */
enum { A = 1000, B, AB, A_B, B_A, EQ, LT, GT, LE, GE, AQ, AJ, Q_A, T, F };   /* expected: a number, or one of these */
static const struct { const char *src; long want; } ops[] = {
	{"(+ @a @b)", AB}, {"(- @a @b)", A_B}, {"(- @b @a)", B_A}, {"(* @i @j)", 3}, {"(* @j @n)", 6}, {"(/ @q @j)", 2}, {"(/ @q @n)", 3}, {"(= @a @b)", EQ}, {"(< @a @b)", LT}, {"(> @a @b)", GT}, {"(= @i @n)", F}, {"(= @n @n)", T},
	{"(- @q @a)", Q_A}, {"(- 6 @a)", Q_A}, {"(+ @a 3)", AJ}, {"(< @i @n)", T}, {"(< @n @i)", F}, {"(> @i @n)", F}, {"(> @n @i)", T},
	{"(not @bt)", F}, {"(not @bf)", T}, {"(null? @l)", F}, {"(null? @e)", T},
	{"(car @l)", 1}, {"(car (cdr @l))", 2}, {"(length @l)", 3}, {"(length @v)", 3}, {"(length @s)", 5},
	{"(car (cons @a @b))", A}, {"(cdr (cons @a @b))", B}, {"(car (list @a @b @q))", A}, {"(car (cdr (list @a @b @q)))", B}, {"(car (cdr (cdr (list @q @b @a))))", A},
	{"(get-vector-element @v @i)", 5}, {"(get-vector-element @v @n)", 6}, {"(get-vector-element (vector @a @b @q) @i)", B}, {"(get-vector-element (vector @a @b @q) 0)", A}, {"(get-vector-element (vector @q @b @a) 2)", A}, {"(length (vector @a @b @a @b))", 4},
	{"(get-vector-element (make-vector @j @q) @n)", 6}, {"(length (make-vector @j @q))", 3}, {"(car (make-vector @j @b))", B},
	{"(= (type-of @c) @t)", T}, {"(composite-value @c)", 8}, {"(composite-value (make-instance @t @q @f))", 6}, {"(funcall (make-instance @t @q @f) q i)", 5}, {"(= (type-of (make-instance @t @q @f)) t)", T},
	{"(funcall @c @q @i)", 5}, {"(funcall (composite-function @c) @q @i)", 5},
	{"(length (concatenate @s @w))", 7}, {"(get-vector-element (concatenate @w @s) @n)", 'h'}, {"(length (substring @s @i @j))", 2}, {"(get-vector-element (substring @s @n @j) 0)", 'l'}, {"(length (substring @s @j0 @j))", 3}, {"(get-vector-element @s @i)", 'e'},
	{"(length (make-string @l))", 3}, {"(get-vector-element (make-string @l) @n)", 3}, {"(length (symbol-string @y))", 3}, {"(= (symbol-id @y) (symbol-id (quote sym)))", T}, {"(= @y (quote sym))", T},
	{"(funcall @f @q @i)", 5}, {"(apply @f @q (list @i))", 5}, {"(funcall @z @a @b @q)", 3}, {"(apply @z @l)", 3}, {"(funcall @h)", 11}, {"m", 11},
	{"(if @bt @q @j)", 6}, {"(if @bf @q @j)", 3}, {"(when @bt @q)", 6}, {"(unless @bf @q)", 6}, {"(while @bf @q)", -1},
	{"(funcall (lambda () (+ @a @q)))", AQ}, {"(funcall (lambda (x) (- x @q)) 10)", 4}, {"(funcall (lambda () (setq @k (+ $k @a)) (setq $k (- $k a)) $k))", 5},
	{"((nop) @q)", 6}, {"(funcall (lambda () (nop) (- @q @i)))", 5}, {"((var x 1) (nop) (nop) (+ x @q))", 7},
	/* assignments */
	{"((setq @k @a) $k)", A}, {"((setq @k 5) $k)", 5}, {"(setq @k @b)", B}, {"((setq @k @q) (+ $k @a))", AQ}, {"((setq m 20) m)", 20}, {"(funcall @h)", 21}, {"(setq g0 @q)", 6}, {"g0", 6}, {"(global g1 @b)", B}, {"g1", B},
	{"((set-vector-element @v @j0 @b) (get-vector-element v 0))", B}, {"((set-vector-element @v @n @a) (get-vector-element v 2))", A}, {"((set-vector-element @v @i @q) (get-vector-element v 1))", 6},
	{"((set-car @l @a) (car l))", A}, {"((set-car @l @b) (car l))", B}, {"((set-cdr @l @e) (length l))", 1}, {"((set-cdr @l @v) (car (cdr l)))", B},
	{"((set-composite-value @c @a) (composite-value c))", A}, {"((set-composite-value @c @b) (composite-value c))", B}, {"((set-composite-function @c @z) (funcall c j))", 1}, {"((set-composite-function @c @f) (funcall c j i))", 2},
};
enum { NOPS = sizeof ops / sizeof *ops };
static int operands(const char *s) { int n = 0; for (; *s; s++) n += *s == '@'; return n; }
/* Writes the operation with the operands in `near` replaced by their copies on this side of the padding, the copy of x being nx. */
static void op_text(const char *s, unsigned near) {
	unsigned first = near & 1;
	for (; *s; s++) {
		if (*s == '$') { if (first) PC('n'); }
		else if (*s != '@') PC(*s);
		else { if (near & 1) PC('n'); near >>= 1; }
	}
}
/* The next choice of operands on this side, -1 if there is none: up to three operands in any combination, more with one exception at most. */
static int next(int i, int near) {
	int n = operands(ops[i].src), k;
	if (ops[i].want == 11 || ops[i].want == 21) return -1;     /* `h` counts its calls */
	do {
		if (++near == 1 << n) return -1;
		k = 0;
		for (int j = 0; j < n; j++) k += near >> j & 1;
	} while (n > 3 && k > 1 && k < n - 1);
	return near;
}
static V truth(int b) { return vB(b != 0); }
static void distance(long n, int in_function) {
	padding = n;
	vt_open(2); vt_open_out(); open_pad();
	long a = (long) vt_draw(), b = (long) vt_draw();
	VT_ASSUME(a > b);     /* the comparison operators are C02's */
	vt_inputs[0] = vI(a); vt_inputs[1] = vI(b);
	vt_n = 0;
	P(in_function ? "((defun fun (a b) " : "((var a (in0)) (var b (in1)) ");
	P("(var i 1) (var n 2) (var j 3) (var j0 0) (var q 6) (var k 5) (var l (list 1 2 3)) (var e ()) (var s \"hello\") (var w \"wo\") (var v (vector 4 5 6)) (var m 10) "
	  "(var f (lambda (x y) (- x y))) (var h (lambda () (setq m (+ m 1)) m)) (var z (lambda (&rest r) (length r))) (var y (quote sym)) (var t (make-type)) (var c (make-instance t 8 f)) "
	  "(var bt true) (var bf false) (setq gk (lambda () (- a q))) (setq gh h) (pad) (far) "
	  "(var na a) (var nb b) (var ni i) (var nn n) (var nj j) (var nj0 j0) (var nq q) (var nk k) (var nl l) (var ne e) (var ns s) (var nw w) (var nv v) (var nf f) (var nh h) (var nz z) (var ny y) (var nt t) (var nc c) (var nbt bt) (var nbf bf) "
	  "(setq gn (lambda () (+ a nn))) ");
	int count = 0;
	for (int i = 0; i < NOPS; i++) {
		for (int near = 0; near >= 0; near = next(i, near), count++) { P("(out "); op_text(ops[i].src, near); P(") "); }
	}
	P(in_function ? "a) (fun (in0) (in1)))" : "a)");
	VT_ASSERT(!vt_compile(), "the program compiles");
	VT_ASSERT(!duckVM_execute(&VM, vt_bc, vt_bcn), "the program executes");
	vt_free_bc();
	VT_ASSERT(vt_nout == count && count <= VT_OUTS, "every expression is evaluated once");
	count = 0;
	for (int i = 0; i < NOPS; i++) {
		long w = ops[i].want;
		V x = w == A ? vI(a) : w == B ? vI(b) : w == AB ? vI(a + b) : w == A_B ? vI(a - b) : w == B_A ? vI(b - a) : w == EQ ? truth(a == b) : w == LT ? truth(a < b) : w == GT ? truth(a > b)
			: w == AQ ? vI(a + 6) : w == AJ ? vI(a + 3) : w == Q_A ? vI(6 - a) : w == T ? vB(1) : w == F ? vB(0) : w == -1 ? vN() : vI(w);
		for (int near = 0; near >= 0; near = next(i, near), count++) VT_ASSERT(vt_same(vt_out[count], x), "an operation does the same whatever the distance of its operands");
	}
	VT_ASSERT(vt_same(vt_top(&VM), vI(a)) && duckVM_stackLength(&VM) == 1, "the scope leaves one value");
	VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
	VT_ASSERT(vt_same(vt_value_of("(gk)"), vI(a - 6)), "a captured variable survives its scope");
	VT_ASSERT(vt_same(vt_value_of("((gh) (gh))"), vI(23)), "a captured variable survives its scope");
	VT_ASSERT(vt_same(vt_value_of("(gn)"), vI(a + 2)), "a captured variable survives its scope");
	vt_close();
	VT_REACH("end");
}
/* @q configs=default tconfigs=default,no-optimize reach=end,far | every operation (99 expressions, each operand beyond the padding or before it: some 400 variants) on variables separated by 1, 127, 128 or any number from 205 to 262 of others */
void h_distance_16(void) {
	unsigned long n = vt_pick(61);
	distance(n == 0 ? 1 : n == 1 ? 127 : n == 2 ? 128 : 202 + (long) n, 0);
}
/* @q configs=default tconfigs=default,no-optimize reach=end,far | the same inside a function */
void h_distance_16_function(void) { distance(200 + (long) vt_pick(62), 1); }
/* @q configs=default tconfigs=default,no-optimize reach=end,far steps=400000000 | the same with any number from 65490 to 65537 and 140000 */
void h_distance_32(void) {
	unsigned long n = vt_pick(48 + 1);
	distance(n == 48 ? 140000 : 65490 + (long) n, 0);
}
/* @q configs=default tconfigs=default,no-optimize reach=end,far steps=400000000 | the same inside a function */
void h_distance_32_function(void) { distance(65490 + (long) vt_pick(48), 1); }

#ifndef COUNT
#define COUNT 1
#endif
/* Control flow over code of any length: string literals of a chosen length as padding. */
static void filler(long n) { P("(setq w \""); for (long i = 0; i < n; i++) PC('x'); P("\") "); }
enum { KINDS = 9 };
static void jump(int kind, long i, long len) {
	/* Adds 1 to r if a = i, 4 if not. */
#define COND P("(= a "), PI(i), P(") ")
#define YES P("(setq r (+ r 1))")
#define NO P("(setq r (+ r 4))")
	switch (kind) {
	case 0: P("(if "); COND; YES; P("("); filler(len); NO; P(")) "); break;
	case 1: P("(if "); COND; P("("); filler(len); YES; P(") "); NO; P(") "); break;
	case 2: P("(when "); COND; P("("); filler(len); P("(setq r (- r 3)))) "); NO; break;
	case 3: P("(unless "); COND; P("("); filler(len); P("(setq r (+ r 3)))) "); YES; break;
	case 4: P("(setq k 0) (while (< k (if "); COND; P("1 4)) (setq k (+ k 1)) (setq r (+ r 1)) "); filler(len); P(") "); break;
	case 5: P("(setq k 0) (while ("); filler(len); P(" (< k (if "); COND; P("1 2))) (setq k (+ k 1)) (setq r (+ r (if (= k 2) 3 1)))) "); break;
	case 6: P("(funcall (lambda () "); filler(len); P("(if "); COND; YES; NO; P(") "); filler(len); P("0)) "); break;
	case 7: P("(if "); COND; P("("); filler(len); YES; P(") ("); filler(len); NO; P(")) "); break;
	case 8: P("(if "); COND; P("(if true ("); filler(len); YES; P(") "); filler(len); P(") (if false "); filler(len); P("("); filler(len); NO; P("))) "); break;
	}
}
static unsigned char some;         /* if not 0, only some conditions hold */
static void jumps(long count, long len, int kind, int mixed) {
	vt_open(1);
	long a = (long) vt_draw();
	if (some) VT_ASSUME(a >= 0 && a < count && (unsigned char) a % some == 1);
	vt_inputs[0] = vI(a);
	vt_n = 0;
	P("((var a (in0)) (var r 0) (var k 0) (var w 0) ");
	for (long i = 0; i < count; i++) jump((kind + (mixed ? (int) i : 0)) % KINDS, i, len);
	P("r)");
	V v = vt_value_of(0);
	VT_ASSERT(vt_same(v, vI(a >= 0 && a < count ? 4 * (count - 1) + 1 : 4 * count)), "every branch is taken exactly if its condition holds, whatever the length of the code");
	vt_close();
	VT_REACH("end");
}
/* @q configs=default tconfigs=default,no-optimize,inference reach=end max=120 | one conditional, loop or function (9 forms) over literals of 85 to 135 bytes, arbitrary condition */
void h_jump(void) { long len = 85 + (long) vt_pick(51); int kind = (int) vt_pick(KINDS); jumps(1, len, kind, 0); }
/* @q configs=default tconfigs=default,no-optimize,inference reach=end max=200 defs=COUNT=12 tdefs=COUNT=40 | a sequence of 12 (thorough: 40) equal or alternating conditionals, loops or functions over literals of 85 to 135 bytes, arbitrary conditions */
void h_jump_many(void) { long len = 85 + (long) vt_pick(51); int kind = (int) vt_pick(KINDS), mixed = (int) vt_pick(2); jumps(COUNT, len, kind, mixed); }
/* @q configs=default tconfigs=default,no-optimize reach=end max=200 defs=COUNT=60 tdefs=COUNT=200 | a sequence of 60 (thorough: 200) equal conditionals (3 forms) over literals of 100 to 131 bytes, the condition of any third one arbitrary */
void h_jump_lots(void) {
	long len = 100 + (long) vt_pick(32); int kind = (int) vt_pick(3);
	some = 3;
	jumps(COUNT, len, kind > 1 ? 7 : kind, 0);
}
/* @q configs=default tconfigs=default,no-optimize reach=end max=250 steps=400000000 | one conditional, loop or function (9 forms) over literals of 32735 to 32768 bytes, arbitrary condition */
void h_jump_far(void) { long len = 32735 + (long) vt_pick(34); int kind = (int) vt_pick(KINDS); jumps(1, len, kind, 0); }

/* A loop without end is left by a host function that fails. */
static long ticks;
static dl_error_t cb_tick(duckVM_t *vm) { return --ticks < 0 ? dl_error_invalidValue : duckVM_pushNil(vm); }
static void forever(long len) {
	vt_open(1);
	long a = (long) vt_draw();
	unsigned long n = vt_pick(5);
	vt_inputs[0] = vI(a);
	VT_ASSERT(!vt_link("tick", cb_tick, "()"), "callback links");
	vt_n = 0;
	P("((var w 0) (setq r (in0)) (while true "); filler(len); P("(tick) (setq r (+ r 3))) (setq r 77))");
	ticks = (long) n;
	VT_ASSERT(!vt_compile(), "the program compiles");
	VT_ASSERT(duckVM_execute(&VM, vt_bc, vt_bcn), "the host function's failure ends the program");
	vt_free_bc();
	VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
	VT_ASSERT(vt_same(vt_value_of("((noscope r))"), vI((long) ((unsigned long) a + 3 * n))), "every repetition of the loop runs all of it");
	vt_close();
	VT_REACH("end");
}
/* @q configs=default tconfigs=default,no-optimize reach=end | an endless loop over literals of 85 to 135 bytes or 32735 to 32765 in steps of 3, left by a failing host function in the 1st to 5th repetition */
void h_forever(void) { unsigned long n = vt_pick(62); forever(n < 51 ? 85 + (long) n : 32735 + 3 * ((long) n - 51)); }

/* Any number of names, and strings of any length. */
static void create(long n) {
	char s[8] = "n.......";
	for (long i = 0; i < n; i++) {
		long v = i;
		for (int k = 1; k < 8; k++) { s[k] = 'a' + v % 16; v /= 16; }
		VT_ASSERT(!duckLisp_symbol_create(&DLC, (dl_uint8_t *) s, 8), "a symbol is created");
	}
}
static dl_error_t cb_twice(duckVM_t *vm) {
	V v = vt_top(vm);
	v.i = (long) ((unsigned long) v.i * 2);
	dl_error_t e = duckVM_pop(vm);
	return e ? e : vt_push(vm, v);
}
static void names(long n) {
	vt_open(1); vt_open_out();
	long a = (long) vt_draw();
	vt_inputs[0] = vI(a);
	create(n);
	VT_ASSERT(!vt_link("twice", cb_twice, "(I)"), "callback links");
	vt_n = 0;
	P("((global g (in0)) (defun f (x) (twice (+ x g))) (var o (quote sym)) (out (twice g)) (out (f 1)) (setq g (+ g 1)) (out g) (out (= o (quote sym))) (out (= o (quote other))) (out (length (symbol-string o))) (out (= (symbol-id o) (symbol-id (quote sym)))) (global f2 f) 5)");
	VT_ASSERT(vt_same(vt_value_of(0), vI(5)), "the program's value");
	V want[] = {vI(2 * a), vI(2 * (a + 1)), vI(a + 1), vB(1), vB(0), vI(3), vB(1)};
	VT_ASSERT(vt_nout == 7, "seven results");
	for (int i = 0; i < 7; i++) VT_ASSERT(vt_same(vt_out[i], want[i]), "names mean the same whatever their number");
	VT_ASSERT(vt_same(vt_value_of("(+ (f2 g) (twice 1))"), vI(2 * (a + 1 + a + 1) + 2)), "names mean the same in a later compilation");
	vt_close();
	VT_REACH("end");
}
/* @q configs=default tconfigs=default,no-optimize,inference reach=end | globals, functions, host functions and symbols with any of 200 to 262 names in use, arbitrary Integer */
void h_names(void) { names(200 + (long) vt_pick(63)); }
/* @q configs=default tconfigs=default,no-optimize reach=end steps=2000000000 max=200 | the same with 65450 to 65530 names in use, in steps of 10, and 65600 */
void h_names_32(void) { unsigned long n = vt_pick(9); names(n == 8 ? 65600 : 65450 + 10 * (long) n); }

/* Long strings. */
static void bytes(long len) {
	vt_open(0); vt_open_out();
	unsigned char c = vt_byte(), d = vt_byte();
	VT_ASSUME(c != '"' && c != '\\' && d != '"' && d != '\\');
	vt_n = 0;
	P("((var w \"");
	for (long i = 0; i < len; i++) vt_src[vt_n++] = i == 0 ? (char) c : i == len - 1 ? (char) d : 'a' + i % 20;
	P("\") (out (length w)) (out (get-vector-element w 0)) (out (get-vector-element w "); PI(len - 1); P(")) (out (get-vector-element w 256)) (var x (concatenate w w)) (out (length x)) (out (get-vector-element x "); PI(len);
	P(")) (out (get-vector-element (substring x "); PI(len - 1); P(" "); PI(len + 2); P(") 0)) 1)");
	VT_ASSERT(vt_same(vt_value_of(0), vI(1)), "the program's value");
	long want[] = {len, c, d, 'a' + 256 % 20, 2 * len, c, d};
	VT_ASSERT(vt_nout == 7, "seven results");
	for (int i = 0; i < 7; i++) VT_ASSERT(vt_same(vt_out[i], vI(want[i])), "a string of any length has its bytes");
	vt_close();
	VT_REACH("end");
}
/* @q configs=default tconfigs=default,no-optimize reach=end steps=400000000 | strings of 32766 to 32769 and 65534 to 65537 bytes, arbitrary first and last byte */
void h_bytes(void) { unsigned long n = vt_pick(8); bytes(n < 4 ? 32766 + (long) n : 65530 + (long) n); }

/* Nesting of any depth. */
static void rep(const char *s, long n) { for (long i = 0; i < n; i++) P(s); }
static void nesting(long n, int kind) {
	vt_open(1);
	long a = kind == 0 || kind == 5 || kind == 7 ? 5 : (long) vt_draw(), want = a;
	vt_inputs[0] = vI(a);
	vt_n = 0;
	switch (kind) {
	case 0: rep("(+ 1 ", n); P("(in0)"); rep(")", n); want = a + n; break;
	case 1: P("((var a (in0)) "); rep("((var b a) ", n); P("(setq a (+ a 1)) a"); rep(")", n); P(")"); want = a + 1; break;
	case 2: P("((var a (in0)) "); rep("(if true ", n); P("a"); rep(" 0)", n); P(")"); break;
	case 3: P("((var a (in0)) "); rep("(funcall (lambda () ", n); P("(setq a (+ a 1)) a"); rep("))", n); P(")"); want = a + 1; break;
	case 4: P("((var a (in0)) (var q (quote "); rep("(1 ", n); P("2"); rep(")", n); P(")) (var k 1) (while (< k "); PI(n); P(") (setq q (car (cdr q))) (setq k (+ k 1))) (- a (car (cdr q))))"); want = a - 2; break;
	case 5: P("((defun f (n) (if (= n 0) (in0) (+ 1 (self (- n 1))))) (f "); PI(n * 10); P("))"); want = a + n * 10; break;
	case 6: P("((var a (in0)) "); rep("(car (list ", n); P("a"); rep("))", n); P(")"); break;
	case 7: P("((var a (in0)) (var l ()) (var k 0) (while (< k "); PI(n); P(") (setq l (cons k l)) (setq k (+ k 1))) (+ a (length l)))"); want = a + n; break;
	}
	VT_ASSERT(vt_same(vt_value_of(0), vI(want)), "a program means the same however deep it is nested");
	vt_close();
	VT_REACH("end");
}
/* @q configs=default tconfigs=default,no-optimize,inference reach=end steps=2000000000 max=150 | expressions, scopes, conditionals, functions, quoted lists and recursion nested 1 to 20, 63 to 66, 126 to 130 and 254 to 258 deep */
void h_nesting(void) {
	static const int sizes[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 20, 63, 64, 65, 66, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258};
	int kind = (int) vt_pick(8);
	nesting(sizes[vt_pick(28)], kind);
}
