/* Hooks of a host program into the compiler: parser actions and generators. */
#define VT_OUTS 16
#include "vt_dl.h"
#include "emitters.h"
#include "parser.h"

typedef duckLisp_ast_compoundExpression_t node;
typedef dl_error_t (*action)(duckLisp_t *, node *);
typedef dl_error_t (*generator)(duckLisp_t *, duckLisp_compileState_t *, dl_array_t *, duckLisp_ast_expression_t *);
static dl_size_t len(const char *s) { dl_size_t n = 0; while (s[n]) n++; return n; }
static void add_action(const char *name, action a) { VT_ASSERT(!duckLisp_addParserAction(&DLC, a, (dl_uint8_t *) name, len(name)), "the action is added"); }
static void add_generator(const char *name, generator g, const char *type) {
	VT_ASSERT(!duckLisp_addGenerator(&DLC, g, (dl_uint8_t *) name, len(name)
#ifdef USE_PARENTHESIS_INFERENCE
	                                 , (dl_uint8_t *) type, len(type), (dl_uint8_t *) "", 0
#endif
	                                 ), "the generator is added");
	(void) type;
}
static int is_name(const node *x, const char *name) {
	dl_size_t n = len(name);
	if (x->type != duckLisp_ast_type_identifier && x->type != duckLisp_ast_type_callback) return 0;
	if (x->value.identifier.value_length != n) return 0;
	for (dl_size_t k = 0; k < n; k++) if (x->value.identifier.value[k] != (dl_uint8_t) name[k]) return 0;
	return 1;
}
static dl_error_t rename_head(duckLisp_t *d, node *head, const char *name) {
	dl_uint8_t *s = NULL; dl_size_t n = len(name);
	dl_error_t e = DL_MALLOC(d->memoryAllocation, &s, n, dl_uint8_t);
	if (e) return e;
	for (dl_size_t k = 0; k < n; k++) s[k] = (dl_uint8_t) name[k];
	if ((e = DL_FREE(d->memoryAllocation, &head->value.identifier.value))) return e;
	head->value.identifier.value = s;
	head->value.identifier.value_length = n;
	return e;
}
static void swap(node *a, node *b) { node t = *a; *a = *b; *b = t; }

/* What ran, in order: the number of the hook and the number of arguments of its form. */
static struct { int hook; dl_size_t args; } ran[16];
static int nran;
static void note(int hook, dl_size_t children) {
	VT_ASSERT(nran < 16, "hooks run for few forms");
	VT_ASSERT(children > 0, "a form has a head");
	ran[nran].hook = hook; ran[nran].args = children - 1; nran++;
}
static long value[4];              /* 32-bit integers: larger ones are literals outside of this property */
static long literal(void) { long v = (long) vt_draw(); VT_ASSUME(v == (int) v); return v; }
/* The form becomes an integer. */
static dl_error_t to_integer(duckLisp_t *d, node *x, int k) {
	VT_ASSERT(x->type == duckLisp_ast_type_expression || x->type == duckLisp_ast_type_literalExpression, "an action is given its form");
	note(k, x->value.expression.compoundExpressions_length);
	dl_error_t e = duckLisp_ast_compoundExpression_quit(d->memoryAllocation, x);
	x->type = duckLisp_ast_type_int;
	x->value.integer.value = value[k];
	return e;
}
static dl_error_t a_0(duckLisp_t *d, node *x) { return to_integer(d, x, 0); }
static dl_error_t a_1(duckLisp_t *d, node *x) { return to_integer(d, x, 1); }
static dl_error_t a_2(duckLisp_t *d, node *x) { return to_integer(d, x, 2); }
/* (from a b) becomes (- b a). */
static dl_error_t a_from(duckLisp_t *d, node *x) {
	duckLisp_ast_expression_t *f = &x->value.expression;
	note(3, f->compoundExpressions_length);
	VT_ASSERT(is_name(&f->compoundExpressions[0], "from"), "an action is given its form");
	if (f->compoundExpressions_length != 3) return dl_error_invalidValue;
	swap(&f->compoundExpressions[1], &f->compoundExpressions[2]);
	return rename_head(d, &f->compoundExpressions[0], "__-");
}
/* (text "..") becomes what the string says. */
static dl_error_t a_text(duckLisp_t *d, node *x) {
	duckLisp_ast_expression_t *f = &x->value.expression;
	node inner;
	dl_ptrdiff_t index = 0;
	note(4, f->compoundExpressions_length);
	VT_ASSERT(f->compoundExpressions_length == 2 && f->compoundExpressions[1].type == duckLisp_ast_type_string, "an action is given its form");
	(void) duckLisp_ast_compoundExpression_init(&inner);
	dl_error_t e = duckLisp_parse_compoundExpression(d,
#ifdef USE_PARENTHESIS_INFERENCE
	                                                 dl_false,
#endif
	                                                 (dl_uint8_t *) "inner", 5, f->compoundExpressions[1].value.string.value, f->compoundExpressions[1].value.string.value_length, &inner, &index, dl_true);
	if (e) return e;
	e = duckLisp_ast_compoundExpression_quit(d->memoryAllocation, x);
	*x = inner;
	return e;
}
/* (gsub a b) is (- b a), compiled from its parts. */
static dl_error_t g_sub(duckLisp_t *d, duckLisp_compileState_t *s, dl_array_t *assembly, duckLisp_ast_expression_t *x) {
	dl_ptrdiff_t at[2] = {-1, -1};
	note(5, x->compoundExpressions_length);
	VT_ASSERT(is_name(&x->compoundExpressions[0], "gsub"), "a generator is given its form");
	if (x->compoundExpressions_length != 3) return dl_error_invalidValue;
	for (int k = 0; k < 2; k++) {
		dl_error_t e = duckLisp_compile_compoundExpression(d, s, assembly, (dl_uint8_t *) "gsub", 4, &x->compoundExpressions[k + 1], &at[k], NULL, dl_false);
		if (e) return e;
	}
	return duckLisp_emit_sub(d, s, assembly, at[1], at[0]);
}
/* (gswap a b) becomes (gsub b a), which is compiled. */
static dl_error_t g_swap(duckLisp_t *d, duckLisp_compileState_t *s, dl_array_t *assembly, duckLisp_ast_expression_t *x) {
	note(6, x->compoundExpressions_length);
	VT_ASSERT(is_name(&x->compoundExpressions[0], "gswap"), "a generator is given its form");
	if (x->compoundExpressions_length != 3) return dl_error_invalidValue;
	swap(&x->compoundExpressions[1], &x->compoundExpressions[2]);
	dl_error_t e = rename_head(d, &x->compoundExpressions[0], "gsub");
	if (e) return e;
	return duckLisp_compile_expression(d, s, assembly, (dl_uint8_t *) "gswap", 5, x, NULL);
}
static dl_error_t g_int(duckLisp_t *d, duckLisp_compileState_t *s, dl_array_t *assembly, int k, duckLisp_ast_expression_t *x) {
	note(k, x->compoundExpressions_length);
	return duckLisp_emit_pushInteger(d, s, assembly, NULL, value[k]);
}
static dl_error_t g_0(duckLisp_t *d, duckLisp_compileState_t *s, dl_array_t *assembly, duckLisp_ast_expression_t *x) { return g_int(d, s, assembly, 0, x); }
static dl_error_t g_1(duckLisp_t *d, duckLisp_compileState_t *s, dl_array_t *assembly, duckLisp_ast_expression_t *x) { return g_int(d, s, assembly, 1, x); }
static dl_error_t g_2(duckLisp_t *d, duckLisp_compileState_t *s, dl_array_t *assembly, duckLisp_ast_expression_t *x) { return g_int(d, s, assembly, 2, x); }

/* Compiles and executes the text; with parenthesis inference if asked for. */
static dl_error_t run(int inferred) {
	vt_bc = NULL; vt_bcn = 0;
#ifdef VT_NATIVE
	if (getenv("VT_SHOW")) printf("VT-SRC %.*s\n", vt_n, vt_src), fflush(stdout);
#endif
	dl_error_t e = duckLisp_loadString(&DLC,
#ifdef USE_PARENTHESIS_INFERENCE
	                                   inferred,
#endif
	                                   &vt_bc, &vt_bcn, (dl_uint8_t *) vt_src, vt_n, (dl_uint8_t *) "t", 1);
	(void) inferred;
	if (!e) e = duckVM_execute(&VM, vt_bc, vt_bcn);
	if (vt_bc) vt_free_bc();
	vt_n = 0;
	return e;
}
static int pick_inferred(void) {
#ifdef USE_PARENTHESIS_INFERENCE
	return (int) vt_pick(2);
#else
	return 0;
#endif
}

static const char *const heads[] = {"a", "ab", "bba"};
static void name_of_letters(char *s) {
	unsigned long n = vt_pick(4), k;
	for (k = 0; k <= n; k++) s[k] = (char) ('a' + vt_pick(2));
	s[k] = 0;
}
/* @q configs=default,inference max=60 reach=end,known,unknown | three actions whose names are prefixes of each other or share letters, registered in three orders; a form with a head of 1..4 letters and 0..2 operands, also where the name is an operand; arbitrary results */
void h_action_names(void) {
	static const action actions[] = {a_0, a_1, a_2};
	char s[8];
	vt_open(0);
	vt_open_out();
	int inferred = pick_inferred();
	unsigned long first = vt_pick(3);
	for (unsigned long k = 0; k < 3; k++) { value[k] = literal(); add_action(heads[(first + k) % 3], actions[(first + k) % 3]); }
	name_of_letters(s);
	unsigned long args = vt_pick(3);
	int known = -1;
	for (int k = 0; k < 3; k++) if (len(s) == len(heads[k]) && !memcmp(s, heads[k], len(s))) known = k;
	VT_ASSUME(known >= 0 || !inferred);     /* unknown names are refused there */
	nran = 0;
	vt_n = 0;
	P("(__quote ("); P(s); for (unsigned long k = 0; k < args; k++) { PC(' '); if (inferred) PC('#'); P(s); } P("))");
	VT_ASSERT(!run(inferred), "the program executes");
	if (known >= 0) {
		VT_ASSERT(nran == 1 && ran[0].hook == known && ran[0].args == args, "the action of the head runs once, with the whole form");
		VT_ASSERT(vt_same(vt_top(&VM), vI(value[known])), "the form is what the action made of it");
		VT_REACH("known");
	} else {
		dl_size_t n = 0;
		VT_ASSERT(nran == 0, "no action runs for other forms");
		VT_ASSERT(!duckVM_length(&VM, &n) && n == args + 1, "other forms are left alone");
		VT_REACH("unknown");
	}
	vt_close();
	VT_REACH("end");
}
/* @q configs=default,inference max=60 reach=end,known,unknown | three generators whose names are prefixes of each other or share letters, added in three orders; a form with a head of 1..4 letters and 0..2 operands; arbitrary results */
void h_generator_names(void) {
	static const generator generators[] = {g_0, g_1, g_2};
	char s[8];
	vt_open(0);
	vt_open_out();
	unsigned long first = vt_pick(3);
	for (unsigned long k = 0; k < 3; k++) { value[k] = literal(); add_generator(heads[(first + k) % 3], generators[(first + k) % 3], "(&rest 1 I)"); }
	name_of_letters(s);
	unsigned long args = vt_pick(3);
	int known = -1;
	for (int k = 0; k < 3; k++) if (len(s) == len(heads[k]) && !memcmp(s, heads[k], len(s))) known = k;
	nran = 0;
	vt_n = 0;
	P("(out ("); P(s); for (unsigned long k = 0; k < args; k++) P(" 7"); P("))");
	dl_error_t e = run(0);
	if (known >= 0) {
		VT_ASSERT(!e, "the program executes");
		VT_ASSERT(nran == 1 && ran[0].hook == known && ran[0].args == args, "the generator of the head runs once, with the whole form");
		VT_ASSERT(vt_nout == 1 && vt_same(vt_out[0], vI(value[known])), "the form is compiled to what the generator emits");
		VT_REACH("known");
	} else {
		VT_ASSERT(e && nran == 0 && vt_nout == 0, "no generator runs for other forms");
		VT_REACH("unknown");
	}
	vt_close();
	VT_REACH("end");
}

/* Expressions made of hooks, with their values. */
static int in_text, inferring, nactions[5];
static unsigned long operand(int depth) {
	unsigned long a, b;
	switch (vt_pick(depth ? in_text ? 7 : 8 : 3)) {
	case 0: P("(in0)"); return (unsigned long) vt_inputs[0].i;
	case 1: P("(k0)"); nactions[0]++; return (unsigned long) value[0];
	case 2: P("(k1 3)"); return (unsigned long) value[1];
	case 3: P("(from "); nactions[3]++; a = operand(depth - 1); PC(' '); b = operand(depth - 1); PC(')'); return b - a;
	case 4: P("(gsub "); a = operand(depth - 1); PC(' '); b = operand(depth - 1); PC(')'); return b - a;
	case 5: P("(gswap "); a = operand(depth - 1); PC(' '); P("(in1)"); PC(')'); return a - (unsigned long) vt_inputs[1].i;
	case 6: P(inferring ? "(gsub 1 " : "(less "); a = operand(depth - 1); PC(')'); return a - 1;
	default: P("(text \""); nactions[4]++; in_text = 1; a = operand(depth - 1); in_text = 0; P("\")"); return a;
	}
}
static void open_hooks(void) {
	vt_open(2);
	vt_open_out();
	for (int k = 0; k < 2; k++) { vt_inputs[k] = vI((long) vt_draw()); value[k] = literal(); }
	add_action("k0", a_0); add_action("from", a_from); add_action("text", a_text);
	add_generator("k1", g_1, "(I)"); add_generator("gsub", g_sub, "(I I)"); add_generator("gswap", g_swap, "(I I)");
	in_text = nran = vt_nout = 0;
	for (int k = 0; k < 5; k++) nactions[k] = 0;
	vt_n = 0;
}
static void check_actions(int inferred) {
	int n[5] = {0};
	for (int k = 0; k < nran; k++) if (ran[k].hook < 5) n[ran[k].hook]++;
	VT_ASSERT(n[0] == nactions[0] && n[3] == nactions[3] && n[4] == nactions[4], "actions run once for each of their forms");
	(void) inferred;
}
static void uses(int depth, unsigned long places, long limit) {
	static const char *const before[] = {"(out ", "((__var x 9) (out (__- ", "(out (__funcall (__lambda (x) ", "((__var i 0) (__while (__< i 2) (__setq i (__+ i 1)) (out ", "(out (__if (__= 1 1) ", "(out (__comptime "};
	static const char *const after[] = {")", " x)) x)", ") 4))", ")))", " 3))", "))"};
	open_hooks();
	for (int k = 0; k < 2; k++) VT_ASSUME(value[k] >= -limit && value[k] <= limit);
	int inferred = inferring = pick_inferred();
	unsigned long place = vt_pick(places), v;
	P("("); if (!inferred) P("(__defmacro less (x) (__list (__quote gsub) 1 x)) ");
	P(before[place]); v = operand(depth); P(after[place]); P(")");
	VT_ASSERT(!run(inferred), "the program executes");
	check_actions(inferred);
	int times = place == 3 ? 2 : 1;
	VT_ASSERT(vt_nout == times, "the program runs");
	for (int k = 0; k < times; k++) VT_ASSERT(vt_same(vt_out[k], vI((long) (place == 1 ? v - 9 : v))), "forms are compiled to what hooks make of them");
	vt_close();
	VT_REACH("end");
}
/* @q configs=default,inference,no-optimize max=100 reach=end | a form with operands made of actions, generators, macros and host functions, in 5 places (operand, next to variables, function, loop, branch); arbitrary Integers */
void h_uses(void) { uses(1, 5, 1l << 31); }
/* @q configs=default tconfigs=default,inference,no-optimize max=200 tmax=600 reach=end | such forms nested once more, as an operand; the Integers in the program are from -100 to 100 */
void h_nested(void) { uses(2, 1, 100); }

static dl_error_t fails_with;
static int failing;
static dl_error_t a_fail(duckLisp_t *d, node *x) { (void) d; (void) x; failing++; return fails_with; }
static dl_error_t g_fail(duckLisp_t *d, duckLisp_compileState_t *s, dl_array_t *assembly, duckLisp_ast_expression_t *x) { (void) d; (void) s; (void) assembly; (void) x; failing++; return fails_with; }
/* @q configs=default,inference max=60 reach=end | an action or a generator that refuses its form with one of 4 errors, in 4 places of a program; then a program that uses other hooks */
void h_refused(void) {
	static const dl_error_t errors[] = {dl_error_invalidValue, dl_error_outOfMemory, dl_error_nullPointer, dl_error_bufferOverflow};
	static const char *const before[] = {"", "(out ", "((__var x 1) (out (__funcall (__lambda () ", "(out (text \""};
	static const char *const after[] = {"", ")", "))) x)", "\"))"};
	open_hooks();
	add_action("afail", a_fail); add_generator("gfail", g_fail, "(I)");
	fails_with = errors[vt_pick(4)];
	failing = 0;
	unsigned long place = vt_pick(4);
	P(before[place]); P(vt_pick(2) ? "(afail 1)" : "(gfail 1)"); P(after[place]);
	VT_ASSERT(run(pick_inferred()), "a program with a refused form is refused");
	VT_ASSERT(failing == 1 && vt_nout == 0, "the hook is asked once");
	VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
	VT_ASSERT(!vt_do("(out (gsub (k0) (from (in0) (in1))))"), "a later program executes");
	VT_ASSERT(vt_nout == 1 && vt_same(vt_out[0], vI((long) ((unsigned long) vt_inputs[1].i - (unsigned long) vt_inputs[0].i - (unsigned long) value[0]))), "a later program is compiled with its hooks");
	duckVM_quit(&VM);
	duckLisp_quit(&DLC);
	VT_REACH("end");
}
