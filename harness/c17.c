/* Parenthesis inference, against a reference inferrer written from docs/parenthesis-inference.md. */
#include "vt_dl.h"
#include "parser.h"
#include "parenthesis-inferrer.h"
#ifndef SZ
#define SZ 3
#endif

/* Source trees: the text and the tree are built together. */
enum { INT, NAME, HNAME, LIST, HLIST };          /* 7, x, #x, (...), #(...) */
typedef struct { int k; int v; int first, next; } N;
static N nd[64];
static int nn;
static int node(int k, int v) { nd[nn].k = k; nd[nn].v = v; nd[nn].first = nd[nn].next = -1; return nn++; }
static int budget, serial;
static int lo, hi;                               /* names are letters in [lo, hi] */
static int gen_list(int k, int depth, int kinds);
/* Words: names with a capital letter or a sign as their number. */
static const struct { int v; const char *name; } kw[] = {
	{'D', "declare"}, {'V', "var"}, {'G', "__global"}, {'F', "defun"}, {'M', "__defmacro"}, {'A', "lambda"}, {'S', "self"}, {'R', "&rest"}, {'+', "+"}, {'W', "while"}, {'Q', "quote"},
	{'N', "infer-and-get-next-argument"}, {'T', "declare-identifier"}, {'B', "declaration-scope"},
};
#define NKW (int) (sizeof kw / sizeof *kw)
static int kw_of(int v) { for (int i = 0; i < NKW; i++) if (kw[i].v == v) return i; return -1; }
static int gen(int what, int depth, int kinds) {
	if (what == INT) { int v = 1 + serial++ % 9; PC('0' + v); PC(' '); return node(INT, v); }
	if (what == NAME || what == HNAME) {
		int c = (int) vt_range(lo, hi);
		if (what == HNAME) PC('#');
		PC(c); PC(' ');
		return node(what, c);
	}
	return gen_list(what, depth - 1, kinds);
}
/* Elements are chosen until the budget is used up or the list is ended. */
static void gen_items(int me, int depth, int kinds) {
	int last = -1;
	while (budget > 0) {
		unsigned long w = vt_pick((unsigned long) (depth > 0 ? kinds : kinds < 3 ? kinds : 3) + 1);
		if (w == 0) break;
		budget--;
		int c = gen((int) w == 1 ? NAME : (int) w == 2 ? INT : (int) w == 3 ? (depth > 0 ? LIST : HNAME) : (int) w == 4 ? HNAME : HLIST, depth, kinds);
		if (last < 0) nd[me].first = c; else nd[last].next = c;
		last = c;
	}
}
static int gen_list(int k, int depth, int kinds) {
	int me = node(k, 0);
	P(k == LIST ? "(" : "#(");
	gen_items(me, depth, kinds);
	P(") ");
	return me;
}

/* Expected result: a sequence of tokens. */
enum { OPEN = 1000, CLOSE = 1001 };
static int ex[256], nex;
static void put(int t) { VT_ASSERT(nex < 256, "room"); ex[nex++] = t; }
static void raw(int x) {
	switch (nd[x].k) {
	case INT: put(nd[x].v); break;
	case NAME: case HNAME: put(nd[x].v); break;
	default:
		put(OPEN);
		for (int c = nd[x].first; c >= 0; c = nd[c].next) raw(c);
		put(CLOSE);
	}
}
/* Types.  n < 0: a variable ('L' or 'I' in rest). */
/* script: 'V' declares its first argument, 'F' a function named by it, 'A' no name. */
typedef struct { int name; int n; char pos[8]; int variadic, count; char rest; int script; } Ty;
static Ty ty[24];
static int nty;
static int nscope, scope_at[16];
static void declared(int name, int n, const char *pos, int variadic, int count, int rest) {
	Ty *t = &ty[nty++];
	t->name = name; t->n = n; t->variadic = variadic; t->count = count; t->rest = (char) rest; t->script = 0;
	for (int i = 0; i < n; i++) t->pos[i] = pos[i];
}
static Ty *lookup(int name) {
	for (int i = nty - 1; i >= 0; i--) if (ty[i].name == name) return &ty[i];
	return NULL;
}
static int bad;                                  /* an error is expected */
static int infer(int x);
/* declare: x is the name, its successor the type. */
static void declaration(int x) {
	if (x < 0 || nd[x].k != NAME || nd[x].next < 0) return;
	int t = nd[x].next;
	if (nd[t].k == NAME) declared(nd[x].v, -1, "", 0, 0, nd[t].v);
	else {
		char pos[3];
		int n = 0;
		for (int c = nd[t].first; c >= 0; c = nd[c].next) pos[n++] = (char) nd[c].v;
		declared(nd[x].v, n, pos, 0, 0, 0);
	}
}
/* Takes one argument of kind p ('L' or 'I') at x; the next node. */
static int argument(int x, int p) {
	if (x < 0) { bad = 1; return -1; }
	if (p == 'L') { raw(x); return nd[x].next; }
	return infer(x);
}
/* The parameter list x: declares each in the current scope and gives the type of the function; its own scope is the caller's. */
static Ty function_type(int name, int x) {
	Ty t;
	int rest_at = -1, k = 0;
	t.name = name; t.n = 0; t.script = 0; t.variadic = 0; t.count = 0; t.rest = 'I';
	if (nd[x].k != LIST && nd[x].k != HLIST) { bad = 1; return t; }
	for (int c = nd[x].first; c >= 0; c = nd[c].next, k++) {
		if (nd[c].k != NAME && nd[c].k != HNAME) { bad = 1; return t; }
		if (nd[c].v == 'R') { if (rest_at >= 0) bad = 1; rest_at = k; t.variadic = 1; }
		else if (rest_at < 0) t.pos[t.n++] = 'I';
	}
	if (rest_at >= 0 && k != rest_at + 2) bad = 1;
	return t;
}
/* The arguments from next on of a call of t; par: the call is written with parentheses. */
static int arguments(Ty t, int next, int par) {
	int scope = -1, fname = 0;
	Ty ft;
	if (t.variadic && t.count < 0 && !par) { bad = 1; return -1; }
	for (int i = 0; i < t.n; i++) {
		int x = next;
		next = argument(next, t.pos[i]);
		if (bad) return -1;
		if (t.script == 'V' && i == 0) {
			if (nd[x].k != NAME && nd[x].k != HNAME) { bad = 1; return -1; }
			declared(nd[x].v, -1, "", 0, 0, 'L');
		}
		if (t.script == 'F' && i == 0) fname = x;
		if (t.script && t.script != 'V' && i == t.n - 1) {
			if (t.script == 'F' && nd[fname].k != NAME && nd[fname].k != HNAME) { bad = 1; return -1; }
			ft = function_type('S', x);
			if (bad) return -1;
			scope = nty;
			for (int c = nd[x].first; c >= 0; c = nd[c].next) if (nd[c].v != 'R') declared(nd[c].v, -1, "", 0, 0, 'L');
			ty[nty++] = ft;
		}
	}
	if (t.variadic) for (int i = 0; par ? next >= 0 : i < t.count; i++) { next = argument(next, t.rest); if (bad) return -1; }
	if (scope >= 0) {
		nty = scope;
		if (t.script == 'F') { ft.name = nd[fname].v; ty[nty++] = ft; }
	}
	if (par && next >= 0) bad = 1;
	return next;
}
/* Infers the form that starts at x; the node after it. */
static int infer(int x) {
	int next = nd[x].next;
	Ty *t;
	switch (nd[x].k) {
	case INT: case HNAME: case HLIST: raw(x); return next;
	case NAME:
		t = lookup(nd[x].v);
		if (!t) { bad = 1; return -1; }
		if (t->n < 0) { raw(x); return next; }
		put(OPEN); put(nd[x].v);
		next = arguments(*t, next, 0);
		if (bad) return -1;
		put(CLOSE);
		if (nd[x].v == 'D') declaration(nd[x].next);
		return next;
	default: {
		int c = nd[x].first;
		put(OPEN);
		if (c >= 0 && nd[c].k == NAME) {
			t = lookup(nd[c].v);
			if (!t) { bad = 1; return -1; }
			put(nd[c].v);
			if (t->n < 0) {
				if (t->rest == 'I') { bad = 1; return -1; }
				for (c = nd[c].next; c >= 0; ) { c = infer(c); if (bad) return -1; }
			}
			else { arguments(*t, nd[c].next, 1); if (bad) return -1; }
		}
		else {
			int outer = nty;
			if (c >= 0 && nd[c].k == HNAME) { put(nd[c].v); c = nd[c].next; outer = -1; }
			while (c >= 0) { c = infer(c); if (bad) return -1; }
			if (outer >= 0) nty = outer;
		}
		put(CLOSE);
		c = nd[x].first;
		if (c >= 0 && nd[c].k == NAME && nd[c].v == 'D') declaration(nd[c].next);
		return next;
	}
	}
}
static int at;
static void compare(duckLisp_ast_compoundExpression_t *a) {
	VT_ASSERT(at < nex, "the tree has no more elements than prescribed");
	switch (a->type) {
	case duckLisp_ast_type_int: VT_ASSERT(ex[at] == (int) a->value.integer.value, "an Integer"); at++; break;
	case duckLisp_ast_type_identifier:
		if (ex[at] < 'a' && ex[at] != 'I' && ex[at] != 'L') {
			int w = kw_of(ex[at]);
			VT_ASSERT(w >= 0 && a->value.identifier.value_length == strlen(kw[w].name) && !memcmp(a->value.identifier.value, kw[w].name, strlen(kw[w].name)), "a word");
			at++;
			break;
		}
		VT_ASSERT(a->value.identifier.value_length == 1, "a name of one letter");
		VT_ASSERT(ex[at] == a->value.identifier.value[0], "a name");
		at++;
		break;
	case duckLisp_ast_type_expression:
		VT_ASSERT(ex[at] == OPEN, "a form starts where prescribed"); at++;
		for (long i = 0; i < (long) a->value.expression.compoundExpressions_length; i++) compare(&a->value.expression.compoundExpressions[i]);
		VT_ASSERT(at < nex && ex[at] == CLOSE, "a form ends where prescribed"); at++;
		break;
	default: VT_ASSERT(0, "an Integer, a name or a form");
	}
}
static dl_array_t decls;
static void decl_n(const char *name, const char *type, int type_length) {
	duckLisp_parenthesisInferrer_declarationPrototype_t p;
	memset(&p, 0, sizeof p);
	p.name = (dl_uint8_t *) name; p.name_length = strlen(name);
	p.type = (dl_uint8_t *) type; p.type_length = (dl_size_t) type_length;
	VT_ASSERT(!dl_array_pushElement(&decls, &p), "declaration");
}
static void decl(const char *name, const char *type) { decl_n(name, type, (int) strlen(type)); }
static void open_(void) {
	vt_open(0);
	dl_array_init(&decls, &MA, sizeof(duckLisp_parenthesisInferrer_declarationPrototype_t), dl_array_strategy_double);
	vt_n = 0;
}
/* Reads the text built; compares with what the reference makes of the tree at root. */
static void check(int root) {
	duckLisp_ast_compoundExpression_t ast;
	char *src = malloc((unsigned long) vt_n);
	for (int i = 0; i < vt_n; i++) src[i] = vt_src[i];
#ifdef VT_NATIVE
	if (getenv("VT_SHOW")) printf("VT-SRC %.*s\n", vt_n, vt_src), fflush(stdout);
#endif
	duckLisp_ast_compoundExpression_init(&ast);
	dl_error_t e = duckLisp_read(&DLC, dl_true, VT_MAXOBJ, &decls, (dl_uint8_t *) "t", 1, (dl_uint8_t *) src, (dl_size_t) vt_n, &ast, 0, dl_true);
	if (root >= 0) {
		bad = 0; nex = 0; at = 0;
		infer(root);
		if (bad) { VT_ASSERT(e, "a form that does not fit its declaration is an error"); VT_REACH("rejected"); }
		else {
			VT_ASSERT(!e, "a form that fits its declarations is read");
			compare(&ast);
			VT_ASSERT(at == nex, "every element is in the tree");
			VT_REACH("accepted");
		}
	}
	VT_ASSERT(!duckLisp_ast_compoundExpression_quit(&MA, &ast) || e, "the tree can be freed");
	free(src);
	if (!e) { VT_ASSERT(!dl_array_quit(&decls), "declarations"); vt_close(); }
	else {
		/* The compiler still works. */
		dl_array_quit(&decls);
		VT_ASSERT(vt_same(vt_value_of("(__+ 1 2)"), vI(3)), "a program after an error");
	}
}
static void fixed_types(void) {
	decl("a", "()"); declared('a', 0, "", 0, 0, 0);
	decl("b", "(I)"); declared('b', 1, "I", 0, 0, 0);
	decl("c", "(I I)"); declared('c', 2, "II", 0, 0, 0);
	decl("d", "(L I)"); declared('d', 2, "LI", 0, 0, 0);
	decl("e", "L"); declared('e', -1, "", 0, 0, 'L');
	decl("f", "I"); declared('f', -1, "", 0, 0, 'I');
	decl("g", "(&rest 1 I)"); declared('g', 0, "", 1, 1, 'I');
	decl("h", "(I &rest 2 L)"); declared('h', 1, "I", 1, 2, 'L');
	decl("i", "(I &rest -1 I)"); declared('i', 1, "I", 1, -1, 'I');
	lo = 'a'; hi = 'j';
}
static void few_types(void) {
	decl("a", "(I)"); declared('a', 1, "I", 0, 0, 0);
	decl("b", "(L I)"); declared('b', 2, "LI", 0, 0, 0);
	decl("c", "(I &rest 1 I)"); declared('c', 1, "I", 1, 1, 'I');
	decl("d", "L"); declared('d', -1, "", 0, 0, 'L');
	lo = 'a'; hi = 'd';
}
static void forms(int few, int size, int depth, int kinds) {
	open_();
	if (few) few_types(); else fixed_types();
	budget = size;
	check(gen_list(LIST, depth, kinds));
	VT_REACH("end");
}
/* @q configs=inference reach=end,accepted,rejected defs=SZ=4 tdefs=SZ=5 | every form of at most 4 elements (thorough: 5), each an integer or one of 9 declared names (with 0 to 2 arguments, variadic, literal arguments, variables) or an undeclared one */
void h_flat(void) { forms(0, SZ, 0, 2); }
/* @q configs=inference reach=end,accepted,rejected defs=SZ=4 tdefs=SZ=5 | every form of at most 4 elements (thorough: 5), integers, 4 names (one and two arguments, variadic, variable) and parenthesised forms, nested to depth 2 */
void h_nested(void) { forms(1, SZ, 2, 3); }
/* @q configs=inference reach=end,accepted,rejected defs=SZ=3 tdefs=SZ=4 | every form of at most 3 elements (thorough: 4), including #name and #(...) */
void h_literal(void) { forms(0, SZ, 2, 5); }
/* A declared type with arbitrary letters and default argument count. */
static void any_type(int size, int depth) {
	static char text[40];
	static char pos[3];
	int k = 0, n = (int) vt_pick(3), rest = 0, count = 0;
	open_();
	text[k++] = '(';
	for (int i = 0; i < n; i++) {
		pos[i] = (char) vt_draw();
		VT_ASSUME(pos[i] == 'I' || pos[i] == 'L');
		text[k++] = pos[i]; text[k++] = ' ';
	}
	if (vt_pick(2)) {
		const char *s = "&rest ";
		while (*s) text[k++] = *s++;
		if (vt_pick(2)) { text[k++] = '-'; count = -1; }
		int d = (int) vt_range(0, 3);
		text[k++] = (char) ('0' + d); text[k++] = ' ';
		if (count < 0) VT_ASSUME(d > 0);
		count = count < 0 ? -d : d;
		rest = (unsigned char) vt_draw();
		VT_ASSUME(rest == 'I' || rest == 'L');
		text[k++] = (char) rest;
	}
	text[k++] = ')';
	decl_n("a", text, k); declared('a', n, pos, rest != 0, count, rest);
	decl("b", "(I)"); declared('b', 1, "I", 0, 0, 0);
	lo = 'a'; hi = 'b';
	budget = size;
	check(gen_list(LIST, depth, 3));
	VT_REACH("end");
}
/* @q configs=inference reach=end,accepted,rejected defs=SZ=3 tdefs=SZ=4 | a name of every type with at most 2 positional letters and at most 3 default variadic arguments, in every form of at most 3 elements (thorough: 4) */
void h_types(void) { any_type(SZ, 1); }

/* Declarations in the source: scopes, redeclaration.  'D' stands for declare. */
static void link_(int me, int *last, int c) { if (*last < 0) nd[me].first = c; else nd[*last].next = c; *last = c; }
static int type_node(unsigned long which) {
	int l, last = -1;
	switch (which) {
	case 0: P("() "); return node(LIST, 0);
	case 1: P("(I) "); l = node(LIST, 0); link_(l, &last, node(NAME, 'I')); return l;
	case 2: P("(#I #I) "); l = node(LIST, 0); link_(l, &last, node(NAME, 'I')); link_(l, &last, node(NAME, 'I')); return l;
	case 3: P("L "); return node(NAME, 'L');
	default: P("I "); return node(NAME, 'I');
	}
}
static void scope_items(int me, int last, int depth) {
	int c, p;
	while (budget > 0) {
		unsigned long w = vt_pick(depth > 0 ? 6 : 5);
		if (w == 0) break;
		budget--;
		switch (w) {
		case 1: case 2:                        /* declare x T, with or without parentheses */
			if (w == 2) { P("("); c = node(LIST, 0); link_(me, &last, c); p = -1; }
			else { c = me; p = last; }
			P("declare ");
			link_(c, &p, node(NAME, 'D'));
			link_(c, &p, gen(NAME, 0, 0));
			link_(c, &p, type_node(vt_pick(5)));
			if (w == 2) P(") "); else last = p;
			break;
		case 3: link_(me, &last, gen(NAME, 0, 0)); break;
		case 4: link_(me, &last, gen(INT, 0, 0)); break;
		default:
			P("(() ");
			c = node(LIST, 0);
			link_(me, &last, c);
			p = -1;
			link_(c, &p, node(LIST, 0));
			scope_items(c, p, depth - 1);
			P(") ");
		}
	}
}
/* @q configs=inference reach=end,accepted,rejected max=200 defs=SZ=3 tdefs=SZ=4 | every program of at most 3 (thorough: 4) declarations (5 types, 2 names), uses, integers and nested scopes */
void h_declare(void) {
	open_();
	decl("b", "(I)");
	declared('D', 2, "LL", 1, 0, 'I');
	declared('b', 1, "I", 0, 0, 0);
	lo = 'a'; hi = 'b';
	budget = SZ;
	P("(() ");
	int root = node(LIST, 0), last = -1;
	link_(root, &last, node(LIST, 0));
	scope_items(root, last, 1);
	P(")");
	check(root);
	VT_REACH("end");
}

/* The same program with all parentheses and with some left out is the same tree; types are the built-in ones. */
static char full[2048];
static int nf;
static void F(const char *s) { while (*s) full[nf++] = *s++; }
static void FC(int c) { full[nf++] = (char) c; }
static void both(const char *s) { P(s); F(s); }
static int call_open(const char *name) {
	int explicit_ = (int) vt_pick(2);
	if (explicit_) P("(");
	F("(");
	both(name); both(" ");
	return explicit_;
}
static void call_close(int explicit_) { if (explicit_) P(") "); F(") "); }
static void same_tree(duckLisp_ast_compoundExpression_t *a, duckLisp_ast_compoundExpression_t *b) {
	VT_ASSERT(a->type == b->type, "the same kind of node");
	switch (a->type) {
	case duckLisp_ast_type_int: VT_ASSERT(a->value.integer.value == b->value.integer.value, "the same Integer"); break;
	case duckLisp_ast_type_bool: VT_ASSERT(a->value.boolean.value == b->value.boolean.value, "the same Boolean"); break;
	case duckLisp_ast_type_string:
	case duckLisp_ast_type_identifier: {
		unsigned char *x = a->type == duckLisp_ast_type_string ? a->value.string.value : a->value.identifier.value;
		unsigned char *y = a->type == duckLisp_ast_type_string ? b->value.string.value : b->value.identifier.value;
		unsigned long n = a->type == duckLisp_ast_type_string ? a->value.string.value_length : a->value.identifier.value_length;
		unsigned long m = a->type == duckLisp_ast_type_string ? b->value.string.value_length : b->value.identifier.value_length;
		VT_ASSERT(n == m, "the same length");
		for (unsigned long i = 0; i < n; i++) VT_ASSERT(x[i] == y[i], "the same bytes");
		break;
	}
	case duckLisp_ast_type_expression:
		VT_ASSERT(a->value.expression.compoundExpressions_length == b->value.expression.compoundExpressions_length, "the same number of elements");
		for (unsigned long i = 0; i < a->value.expression.compoundExpressions_length; i++)
			same_tree(&a->value.expression.compoundExpressions[i], &b->value.expression.compoundExpressions[i]);
		break;
	default: VT_ASSERT(0, "a known kind of node");
	}
}
static dl_size_t read_objects = VT_MAXOBJ;
static dl_error_t read_(int infer_, const char *t, int n, duckLisp_ast_compoundExpression_t *ast) {
	char *src = malloc((unsigned long) n + !n);
	for (int i = 0; i < n; i++) src[i] = t[i];
#ifdef VT_NATIVE
	if (getenv("VT_SHOW")) printf("VT-SRC %.*s\n", n, t), fflush(stdout);
#endif
	duckLisp_ast_compoundExpression_init(ast);
	dl_error_t e = duckLisp_read(&DLC, infer_ ? dl_true : dl_false, read_objects, &DLC.parenthesisInferrerTypes_array, (dl_uint8_t *) "t", 1, (dl_uint8_t *) src, (dl_size_t) n, ast, 0, dl_true);
	free(src);
	return e;
}
static void equivalent(void) {
	duckLisp_ast_compoundExpression_t a, b;
	VT_ASSERT(!read_(1, vt_src, vt_n, &a), "the text with parentheses left out is read");
	VT_ASSERT(!read_(0, full, nf, &b), "the text with all parentheses is read");
	same_tree(&a, &b);
	duckLisp_ast_compoundExpression_quit(&MA, &a);
	duckLisp_ast_compoundExpression_quit(&MA, &b);
	vt_close();
	VT_REACH("end");
}
/* Arguments when called with parentheses: min, max (-1: any); without: n.  L: the first argument is a new name; S: it is a list of names. */
static const struct { const char *name; int min, max, n; } words[] = {
	{"+", 2, 2, 2}, {"-", 2, 2, 2}, {"*", 2, 2, 2}, {"/", 2, 2, 2}, {"=", 2, 2, 2}, {"<", 2, 2, 2}, {">", 2, 2, 2},
	{"not", 1, 1, 1}, {"if", 3, 3, 3}, {"while", 1, -1, 2}, {"when", 1, -1, 2}, {"unless", 1, -1, 2}, {"nop", 0, 0, 0},
	{"funcall", 1, -1, 2}, {"apply", 1, -1, 2}, {"noscope", 0, -1, 0}, {"comptime", 0, -1, 1}, {"quote", 1, 1, 1},
	{"list", 0, -1, 0}, {"vector", 0, -1, 0}, {"make-vector", 2, 2, 2}, {"get-vector-element", 2, 2, 2}, {"set-vector-element", 3, 3, 3},
	{"cons", 2, 2, 2}, {"car", 1, 1, 1}, {"cdr", 1, 1, 1}, {"set-car", 2, 2, 2}, {"set-cdr", 2, 2, 2}, {"null?", 1, 1, 1},
	{"type-of", 1, 1, 1}, {"make-type", 0, 0, 0}, {"make-instance", 3, 3, 3}, {"composite-value", 1, 1, 1}, {"composite-function", 1, 1, 1},
	{"set-composite-value", 2, 2, 2}, {"set-composite-function", 2, 2, 2}, {"make-string", 1, 1, 1}, {"concatenate", 2, 2, 2},
	{"substring", 3, 3, 3}, {"length", 1, 1, 1}, {"symbol-string", 1, 1, 1}, {"symbol-id", 1, 1, 1}, {"error", 1, 1, 1},
	{"gensym", 0, 0, 0}, {"intern", 1, 1, 1}, {"read", 2, 2, 2}, {"in0", 0, 0, 0}, {"out", 1, 1, 1},
};
#define NWORDS (sizeof words / sizeof *words)
static void word(unsigned long w, char *buf) {
	int i = 0;
	if (w < NWORDS - 5 && vt_pick(2)) { buf[i++] = '_'; buf[i++] = '_'; }
	for (const char *s = words[w].name; *s; s++) buf[i++] = *s;
	buf[i] = 0;
}
static void argument_(int call) {
	if (call) { int x = call_open("car"); both("5 "); call_close(x); }
	else both("7 ");
}
/* @q configs=inference max=150 reach=end | every built-in word and host function, spelled either way, without parentheses, any one argument being a call itself, with or without parentheses */
void h_words(void) {
	char w[32];
	unsigned long k = vt_pick(NWORDS);
	word(k, w);
	vt_open(1); vt_open_out(); vt_n = nf = 0;
	both("(() ");
	F("("); both(w); both(" ");
	int at_ = words[k].n ? (int) vt_pick((unsigned long) words[k].n) : -1;
	for (int i = 0; i < words[k].n; i++) argument_(i == at_);
	F(")"); both(" 9)");
	equivalent();
}
/* @q configs=inference max=120 reach=end,rejected | every built-in word and host function, spelled either way, called in parentheses with 0 to 4 arguments: refused exactly if the number does not fit */
void h_arity(void) {
	char w[32];
	unsigned long k = vt_pick(NWORDS);
	int n = (int) vt_pick(5);
	word(k, w);
	vt_open(1); vt_open_out(); vt_n = nf = 0;
	both("(3 ("); both(w); both(" ");
	for (int i = 0; i < n; i++) both("7 ");
	both("))");
	if (n < words[k].min || words[k].max >= 0 && n > words[k].max) {
		duckLisp_ast_compoundExpression_t a;
		VT_ASSERT(read_(1, vt_src, vt_n, &a), "a wrong number of arguments is an error");
		duckLisp_ast_compoundExpression_quit(&MA, &a);
		VT_ASSERT(vt_same(vt_value_of("(__+ 1 2)"), vI(3)), "a program after an error");
		VT_REACH("rejected");
	}
	else equivalent();
}

/* Words that declare names themselves, with the built-in scripts. */
static void builtin(int v, int n, const char *pos, int variadic, int count, int script) {
	const char *name = kw[kw_of(v)].name;
	dl_array_t *all = &DLC.parenthesisInferrerTypes_array;
	for (unsigned long i = 0; i < all->elements_length; i++) {
		duckLisp_parenthesisInferrer_declarationPrototype_t *p = (duckLisp_parenthesisInferrer_declarationPrototype_t *) all->elements + i;
		if (p->name_length == strlen(name) && !memcmp(p->name, name, p->name_length)) {
			VT_ASSERT(!dl_array_pushElement(&decls, p), "declaration");
			declared(v, n, pos, variadic, count, 'I');
			ty[nty - 1].script = script;
			return;
		}
	}
	VT_ASSERT(0, "the word has a declaration");
}
static void word_(int me, int *last, int v) { P(kw[kw_of(v)].name); PC(' '); link_(me, last, node(NAME, v)); }
static void parameters(int me, int *last) {
	int l = node(LIST, 0), p = -1;
	P("(");
	switch (vt_pick(5)) {
	case 0: break;
	case 1: link_(l, &p, gen(NAME, 0, 0)); break;
	case 2: link_(l, &p, gen(NAME, 0, 0)); link_(l, &p, gen(NAME, 0, 0)); break;
	case 3: word_(l, &p, 'R'); link_(l, &p, gen(NAME, 0, 0)); break;
	default: link_(l, &p, gen(NAME, 0, 0)); word_(l, &p, 'R'); link_(l, &p, gen(NAME, 0, 0));
	}
	P(") ");
	link_(me, last, l);
}
/* One form; statements may be chosen where stmt. */
static void form(int me, int *last, int stmt, int fn) {
	unsigned long w = vt_pick(budget <= 0 ? 2 : stmt ? 7 : 5);
	if (w == 0) { link_(me, last, gen(INT, 0, 0)); return; }
	if (w == 1) { link_(me, last, gen(NAME, 0, 0)); return; }
	budget--;
	if (w == 2) {                              /* (name ...) */
		int l = node(LIST, 0), p = -1;
		P("(");
		link_(l, &p, gen(NAME, 0, 0));
		for (int i = (int) vt_pick(3); i > 0; i--) form(l, &p, 0, fn);
		P(") ");
		link_(me, last, l);
		return;
	}
	int par = (int) vt_pick(2), l = me, p = *last;
	if (par) { P("("); l = node(LIST, 0); link_(me, last, l); p = -1; }
	if (w == 3) { word_(l, &p, fn ? 'S' : '+'); form(l, &p, 0, fn); if (vt_pick(2)) form(l, &p, 0, fn); }
	else if (w == 4) { word_(l, &p, 'A'); parameters(l, &p); form(l, &p, 0, 1); if (par && vt_pick(2)) form(l, &p, 0, 1); }
	else if (w == 5) { word_(l, &p, 'V'); link_(l, &p, gen(NAME, 0, 0)); form(l, &p, 0, fn); }
	else { word_(l, &p, 'F'); link_(l, &p, gen(NAME, 0, 0)); parameters(l, &p); form(l, &p, 0, 1); if (par && vt_pick(2)) form(l, &p, 1, 1); }
	if (par) P(") "); else *last = p;
}
/* @q configs=inference max=200 reach=end,accepted,rejected defs=SZ=1 tdefs=SZ=2 | every program of 3 forms with at most 1 (thorough: 2) of: var, defun (5 parameter lists), lambda, self, +, parenthesised calls; with uses of 2 names and integers; each with or without parentheses */
void h_functions(void) {
	open_();
	builtin('V', 2, "LI", 0, 0, 'V');
	builtin('F', 2, "LL", 1, 1, 'F');
	builtin('A', 1, "L", 1, 1, 'A');
	builtin('+', 2, "II", 0, 0, 0);
	lo = 'a'; hi = 'b';
	budget = SZ;
	P("(() ");
	int root = node(LIST, 0), last = -1;
	link_(root, &last, node(LIST, 0));
	int n = 0;
	while (n < 3) { form(root, &last, n < 2, 0); n++; }
	P(")");
	check(root);
	VT_REACH("end");
}

/* Scripts given by declare in the source; the manual's examples and others.  Each with what the uses mean. */
static const struct { const char *decl, *use, *full, *fdecl; } scripts[] = {
	{"(declare v (L I) (declare-identifier (infer-and-get-next-argument) (quote #L)))",
	 "v x * 2 3 x", "(v x (* 2 3)) x"},
	{"(declare v (L I) declare-identifier infer-and-get-next-argument quote #(I I))",
	 "v x 5 x * 1 2 x 3 4", "(v x 5) (x (* 1 2) (x 3 4))",
	 "(declare v (L I) (declare-identifier (infer-and-get-next-argument) (quote (I I))))"},
	{"(declare m (L L L &rest 1 I) ((var name (infer-and-get-next-argument)) (var parameters (infer-and-get-next-argument)) (var type (infer-and-get-next-argument))"
	 " (declaration-scope (while parameters (var parameter car parameters) (unless (= (quote #&rest) parameter) (declare-identifier parameter (quote #L))) (setq parameters (cdr parameters)))"
	 " (declare-identifier (quote #self) type) (infer-and-get-next-argument)) (declare-identifier name type)))",
	 "m k (a b) (I I) * a * b self b a k 1 k 2 3", "(m k (a b) (I I) (* a (* b (self b a)))) (k 1 (k 2 3))",
	 "(declare m (L L L &rest 1 I) ((var name (infer-and-get-next-argument)) (var parameters (infer-and-get-next-argument)) (var type (infer-and-get-next-argument))"
	 " (declaration-scope (while parameters (var parameter (car parameters)) (unless (= (quote #&rest) parameter) (declare-identifier parameter (quote #L))) (setq parameters (cdr parameters)))"
	 " (declare-identifier (quote #self) type) (infer-and-get-next-argument)) (declare-identifier name type)))"},
	{"(declare m (L L L &rest 1 I) ((var name (infer-and-get-next-argument)) (var parameters (infer-and-get-next-argument)) (var type (infer-and-get-next-argument))"
	 " (declaration-scope (while parameters (var parameter car parameters) (unless (= (quote #&rest) parameter) (declare-identifier parameter (quote #L))) (setq parameters (cdr parameters)))"
	 " (declare-identifier (quote #self) type) (infer-and-get-next-argument)) (declare-identifier name type)))",
	 "(m k (a &rest b) (L &rest 2 I) * a 1 b) k zz not 5 k u 1 2", "(m k (a &rest b) (L &rest 2 I) (* a 1) b) (k zz (not 5) (k u 1 2))",
	 "(declare m (L L L &rest 1 I) ((var name (infer-and-get-next-argument)) (var parameters (infer-and-get-next-argument)) (var type (infer-and-get-next-argument))"
	 " (declaration-scope (while parameters (var parameter (car parameters)) (unless (= (quote #&rest) parameter) (declare-identifier parameter (quote #L))) (setq parameters (cdr parameters)))"
	 " (declare-identifier (quote #self) type) (infer-and-get-next-argument)) (declare-identifier name type)))"},
	/* A name given as a string; the second argument decides. */
	{"(declare p (I I) ((infer-and-get-next-argument) (if (= 1 (infer-and-get-next-argument)) (declare-identifier \"q\" (quote #(I))) (declare-identifier \"q\" (quote #L)))))",
	 "p 0 1 q not 7", "(p 0 1) (q (not 7))"},
	{"(declare p (I I) ((infer-and-get-next-argument) (if (= 1 (infer-and-get-next-argument)) (declare-identifier \"q\" (quote #(I))) (declare-identifier \"q\" (quote #L)))))",
	 "p 0 2 q not 7", "(p 0 2) q (not 7)"},
	/* The argument a script gets is the inferred one. */
	{"(declare p (I) (declare-identifier (car (infer-and-get-next-argument)) (quote #(I I))))",
	 "p not 3 not 4 5", "(p (not 3)) (not 4 5)"},
	/* Scripts inside arguments of scripts. */
	{"(declare v (L I) (declare-identifier (infer-and-get-next-argument) (quote #L)))",
	 "v x v y v z 5 * x * y z", "(v x (v y (v z 5))) (* x (* y z))"},
	{"(declare s (&rest 2 I) (declaration-scope (infer-and-get-next-argument)))",
	 "var n 1 s var n 2 var o 3 (s declare not (I I) not 4 5 n) not 6", "(var n 1) (s (var n 2) (var o 3)) (s (declare not (I I)) (not 4 5) n) (not 6)"},
	/* A script that reads no argument, and one that leaves values. */
	{"(declare w (I I) (() 1 2 3))", "w not 1 w 2 3 4", "(w (not 1) (w 2 3)) 4"},
	{"(declare w () (declare-identifier \"t\" (quote #(I))))", "w t 1 (w) t t 2", "(w) (t 1) (w) (t (t 2))"},
	/* Nested arguments. */
	{"(declare p (L) ((var i 0) (while (< i 3) (list i i) (setq i (+ i 1))) (var a (infer-and-get-next-argument)) (list 1 2) (declare-identifier (car (car (cdr a))) (car (cdr (cdr a))))))",
	 "p (g (foo \"s\" (2 (3 4))) (I I)) foo 4 5 p (g (foo) (I)) foo foo 6", "(p (g (foo \"s\" (2 (3 4))) (I I))) (foo 4 5) (p (g (foo) (I))) (foo (foo 6))"},
};
#define NSCRIPTS (int) (sizeof scripts / sizeof *scripts)
/* @q configs=inference max=90 reach=end | 12 declaration scripts (the manual's examples, names as strings, types chosen by argument values, nested and scoped declarations), the use written in the source or in a nested scope */
void h_scripts(void) {
	unsigned long k = vt_pick(NSCRIPTS);
	int nested = (int) vt_pick(2), strict = (int) vt_pick(2);
	vt_open(0); vt_n = nf = 0;
	both("(() ");
	/* The declaration itself is written with all parentheses in the full text. */
	P(scripts[k].decl); P(" ");
	F(scripts[k].fdecl ? scripts[k].fdecl : scripts[k].decl); F(" ");
	if (nested) both("(() ");
	if (strict) both("9 ");
	P(scripts[k].use); F(scripts[k].full);
	if (nested) both(")");
	both(")");
	equivalent();
}

/* Declarations of any shape: accepted or refused, safely. */
static void declare_text(unsigned long x, unsigned long t, unsigned long s) {
	static const char *const xs[] = {"n", "5", "\"n\"", "()", "#n", "(n)"};
	static const char *const ts[] = {"(I)", "L", "I", "Z", "5", "\"s\"", "()", "(I Z)", "(&rest)", "(&rest 1)", "(&rest 1 I I)", "(&rest x I)", "(I &rest 1 (I))", "((I) I)", "(&rest 1 &rest)", "#(I)", "(I &rest 1 I)", "true", "(5)", "(&rest -1 L)", "((&rest 1 L))"};
	static const char *const ss[] = {"", "5", "()", "(infer-and-get-next-argument)", "(() (infer-and-get-next-argument) (infer-and-get-next-argument) (infer-and-get-next-argument))",
		"(declare-identifier 5 5)", "(declare-identifier (quote #a) 5)", "(declare-identifier \"a\" (quote #Z))", "(declare-identifier \"a\" (quote #(5)))", "(declare-identifier \"a\" (quote #((I))))",
		"(declare-identifier \"\" (quote #L))", "(declare-identifier (infer-and-get-next-argument) (infer-and-get-next-argument))",
		"(declaration-scope)", "(declaration-scope (car 5))", "(declare-identifier \"n\" (quote #(I I)))", "(zz)", "(#zz)", "(car (infer-and-get-next-argument))", "#(declare-identifier)"};
	P("(declare "); P(xs[x]); P(" "); P(ts[t]); P(" "); P(ss[s]); P(") ");
}
static void malformed(unsigned long x, unsigned long t, unsigned long s) {
	static const char *const us[] = {"", "n", "n 1", "(n 1 2)", "n n 1 2", "(#n 1)", "(n (n (n 1)))", "n #(n)"};
	unsigned long u = vt_pick(sizeof us / sizeof *us);
	duckLisp_ast_compoundExpression_t a;
	vt_open(0); vt_n = 0;
	P("(() ");
	declare_text(x, t, s);
	P(us[u]);
	P(")");
	dl_error_t e = read_(1, vt_src, vt_n, &a);
	if (e) VT_REACH("rejected"); else VT_REACH("accepted");
	duckLisp_ast_compoundExpression_quit(&MA, &a);
	VT_ASSERT(!read_(1, "(() declare n (I) n n 1)", 24, &a), "a correct text is read afterwards");
	VT_ASSERT(a.type == duckLisp_ast_type_expression && a.value.expression.compoundExpressions_length == 3 && a.value.expression.compoundExpressions[2].type == duckLisp_ast_type_expression, "a correct text is inferred afterwards");
	VT_ASSERT(!duckLisp_ast_compoundExpression_quit(&MA, &a), "the tree can be freed");
	duckVM_quit(&VM); duckLisp_quit(&DLC);
	VT_REACH("end");
}
/* @q configs=inference max=120 reach=end,accepted,rejected | declarations with 6 kinds of name and 21 types, well-formed or not, then 8 uses */
void h_bad_types(void) { unsigned long x = vt_pick(6); malformed(x, x ? 0 : vt_pick(21), 0); }
/* @q configs=inference max=150 reach=end,accepted,rejected | declarations with 19 scripts, correct or failing, on 3 types, then 8 uses */
void h_bad_scripts(void) { unsigned long t = vt_pick(3); malformed(0, t == 1 ? 16 : t == 2 ? 6 : 0, vt_pick(19)); }
/* @q configs=inference max=150 reach=end,accepted,rejected | 4 of these scripts with inference heaps of 4, 6 … 122 objects: the same tree, or an error after which the same text is read with a larger heap */
void h_script_heap(void) {
	static const unsigned char ks[] = {2, 3, 6, 11};
	unsigned long k = ks[vt_pick(4)], n = 2 * vt_pick(60);
	duckLisp_ast_compoundExpression_t a, b;
	vt_open(0); vt_n = nf = 0;
	both("(() ");
	P(scripts[k].decl); P(" ");
	F(scripts[k].fdecl ? scripts[k].fdecl : scripts[k].decl); F(" ");
	P(scripts[k].use); F(scripts[k].full);
	both(")");
	VT_ASSERT(!read_(0, full, nf, &b), "the text with all parentheses is read");
	read_objects = 4 + n;
	dl_error_t e = read_(1, vt_src, vt_n, &a);
	if (!e) { VT_REACH("accepted"); same_tree(&a, &b); } else VT_REACH("rejected");
	VT_ASSERT(!e || n < 116, "a sufficient heap is enough");
	duckLisp_ast_compoundExpression_quit(&MA, &a);
	read_objects = VT_MAXOBJ;
	VT_ASSERT(!read_(1, vt_src, vt_n, &a), "the text is read afterwards");
	same_tree(&a, &b);
	duckLisp_ast_compoundExpression_quit(&MA, &a);
	duckLisp_ast_compoundExpression_quit(&MA, &b);
	duckVM_quit(&VM); duckLisp_quit(&DLC);
	VT_REACH("end");
}
