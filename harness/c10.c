/* The reader on arbitrary bytes, against a reference reader written from the syntax section of the manual. */
#include "vt_dl.h"
#include "parser.h"

static unsigned char *s;                 /* the source: a block of exactly n bytes */
static long n;

static int r_space(unsigned char c) { return c <= 32; }
static int r_word(unsigned char c) { return c > 32 && c != '"' && c != '(' && c != ')' && c != ';'; }
static int r_digit(unsigned char c) { return c >= '0' && c <= '9'; }
static int r_hex(unsigned char c) { return r_digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }

typedef struct { int t; long from, to, value; int first, next; } T;   /* t: ast type; words and strings: bytes [from, to); lists: first child, next sibling */
static T tree[64];
static int ntree;
static long at;
static long skip(long i) {
	for (;;) {
		while (i < n && r_space(s[i])) i++;
		if (i >= n || s[i] != ';') return i;
		while (i < n && s[i] != '\n' && s[i] != '\r') i++;
	}
}
static int is(long i, long j, const char *w) {
	for (; *w; w++, i++) if (i >= j || s[i] != (unsigned char) *w) return 0;
	return i == j;
}
static int r_int(long i, long j, long *v) {
	int neg = 0;
	unsigned long x = 0;
	if (i < j && s[i] == '-') { neg = 1; i++; }
	if (i >= j || !r_digit(s[i])) return 0;
	if (s[i] == '0' && i + 1 < j && (s[i + 1] == 'x' || s[i + 1] == 'X')) {
		i += 2;
		if (i >= j) return 0;
		for (; i < j; i++) {
			if (!r_hex(s[i])) return 0;
			x = x * 16 + (unsigned long) (r_digit(s[i]) ? s[i] - '0' : s[i] >= 'a' ? s[i] - 'a' + 10 : s[i] - 'A' + 10);
		}
	}
	else for (; i < j; i++) {
		if (!r_digit(s[i])) return 0;
		x = x * 10 + (unsigned long) (s[i] - '0');
	}
	*v = (long) (neg ? -x : x);
	return 1;
}
static int r_float(long i, long j) {
	int point = 0, ex = 0;
	if (i < j && s[i] == '-') i++;
	if (i < j && s[i] == '.') {
		point = 1; i++;
		if (i >= j || !r_digit(s[i])) return 0;
		while (i < j && r_digit(s[i])) i++;
	}
	else {
		if (i >= j || !r_digit(s[i])) return 0;
		while (i < j && r_digit(s[i])) i++;
		if (i < j && s[i] == '.') { point = 1; i++; while (i < j && r_digit(s[i])) i++; }
	}
	if (i < j && (s[i] == 'e' || s[i] == 'E')) {
		ex = 1; i++;
		if (i < j && s[i] == '-') i++;
		if (i >= j || !r_digit(s[i])) return 0;
		while (i < j && r_digit(s[i])) i++;
	}
	return (point || ex) && i == j;
}
/* Reads one expression at `at'; the node, or -1 for a syntax error. */
static int r_read(void) {
	at = skip(at);
	if (at >= n || s[at] == ')') return -1;
	int me = ntree++;
	T *x = &tree[me];
	x->first = x->next = -1;
	if (s[at] == '(' || (s[at] == '#' && at + 1 < n && s[at + 1] == '(')) {
		int last = -1;
		at += s[at] == '(' ? 1 : 2;
		x->t = duckLisp_ast_type_expression;
		for (;;) {
			at = skip(at);
			if (at >= n) return -1;
			if (s[at] == ')') { at++; return me; }
			int c = r_read();
			if (c < 0) return -1;
			if (last < 0) x->first = c; else tree[last].next = c;
			last = c;
		}
	}
	if (s[at] == '"') {
		x->t = duckLisp_ast_type_string;
		x->from = ++at;
		for (; at < n && s[at] != '"'; at++) if (s[at] == '\\' && ++at >= n) return -1;
		if (at >= n) return -1;
		x->to = at++;
		return me;
	}
	x->from = at;
	while (at < n && r_word(s[at])) at++;
	x->to = at;
	if (is(x->from, x->to, "true")) { x->t = duckLisp_ast_type_bool; x->value = 1; }
	else if (is(x->from, x->to, "false")) { x->t = duckLisp_ast_type_bool; x->value = 0; }
	else if (r_int(x->from, x->to, &x->value)) x->t = duckLisp_ast_type_int;
	else if (r_float(x->from, x->to)) x->t = duckLisp_ast_type_float;
	else { x->t = duckLisp_ast_type_identifier; if (s[x->from] == '#' && x->to - x->from > 1) x->from++; }
	return me;
}
static void same(int k, duckLisp_ast_compoundExpression_t *a) {
	T *x = &tree[k];
	long len, i;
	VT_ASSERT((int) a->type == x->t, "the kind of datum");
	switch (x->t) {
	case duckLisp_ast_type_bool: VT_ASSERT(a->value.boolean.value == x->value, "the value of a Boolean"); break;
	case duckLisp_ast_type_int: VT_ASSERT(a->value.integer.value == x->value, "the value of an Integer"); break;
	case duckLisp_ast_type_identifier:
		VT_ASSERT((long) a->value.identifier.value_length == x->to - x->from, "the length of a name");
		for (i = 0; i < x->to - x->from; i++) VT_ASSERT(a->value.identifier.value[i] == s[x->from + i], "the bytes of a name");
		break;
	case duckLisp_ast_type_string:
		len = 0;
		for (i = x->from; i < x->to; i++) {
			unsigned char c = s[i];
			if (c == '\\') { c = s[++i]; if (c == 'n') c = '\n'; }
			VT_ASSERT(len < (long) a->value.string.value_length && a->value.string.value[len] == c, "the bytes of a string");
			len++;
		}
		VT_ASSERT((long) a->value.string.value_length == len, "the length of a string");
		break;
	case duckLisp_ast_type_expression:
		len = 0;
		for (i = x->first; i >= 0; i = tree[i].next) {
			VT_ASSERT(len < (long) a->value.expression.compoundExpressions_length, "the elements of a list");
			same(i, &a->value.expression.compoundExpressions[len]);
			len++;
		}
		VT_ASSERT((long) a->value.expression.compoundExpressions_length == len, "the length of a list");
		break;
	}
}
/* Reads s[0..n) and compares; ends the path. */
static void check(void) {
	duckLisp_ast_compoundExpression_t ast;
	duckLisp_ast_compoundExpression_init(&ast);
	long live = vt_live;
	dl_error_t e = duckLisp_read(&DLC,
#ifdef USE_PARENTHESIS_INFERENCE
	                             dl_false, VT_MAXOBJ, &DLC.parenthesisInferrerTypes_array,
#endif
	                             (dl_uint8_t *) "t", 1, s, n, &ast, 0, dl_true);
	ntree = 0; at = 0;
	int want = r_read();
	VT_OBSERVE(!e);
	VT_ASSERT(!e == (want >= 0), "a source is accepted exactly when it starts with an expression");
	if (e) { VT_REACH("error"); return; }
	same(want, &ast);
	VT_ASSERT(!duckLisp_ast_compoundExpression_quit(&MA, &ast), "the expression can be freed");
#ifndef USE_DUCKLIB_MALLOC
	if (!DLC.errors.elements_length) VT_ASSERT(vt_live == live, "the expression is freed completely");
#endif
	VT_REACH("end");
}
static void start(long len) {
	vt_memory();
	memset(&DLC, 0, sizeof DLC);
	VT_ASSERT(!vt_dl_open(VT_MAXOBJ), "compiler starts");
	n = len;
	s = malloc(len ? len : 1);
}
static void bytes(long len) { start(len); for (long i = 0; i < len; i++) s[i] = vt_byte(); check(); }
/* A fixed beginning, k arbitrary bytes, a fixed end. */
static void around(const char *a, long k, const char *b) {
	long la = strlen(a), lb = strlen(b);
	start(la + k + lb);
	memcpy(s, a, la);
	for (long i = 0; i < k; i++) s[la + i] = vt_byte();
	memcpy(s + la + k, b, lb);
	check();
}
/* @q configs=default,inference,portable reach=error | every source of one byte */
void h_bytes1(void) { bytes(1); }
/* @q configs=default,inference | every source of 2 bytes */
void h_bytes2(void) { bytes(2); }
/* @q configs=default,inference max=100 | every source of 3 bytes */
void h_bytes3(void) { bytes(3); }
/* @q configs=default max=200 tmax=700 | every source of 4 bytes */
void h_bytes4(void) { bytes(4); }
/* @q configs=default tier=thorough tmax=700 | every source of 5 bytes */
void h_bytes5(void) { bytes(5); }
/* @q configs=default max=200 | a list whose body is any 3 bytes */
void h_list(void) { around("(", 3, ")"); }
/* @q configs=default max=200 tmax=400 reach=end,error | nested lists with any 3 bytes inside */
void h_nested(void) { around("(a (", 3, " b) 12)"); }
/* @q configs=default max=100 reach=end,error | a string of any 3 bytes, closed at the very end of the source */
void h_string(void) { around("\"", 3, "\""); }
/* @q configs=default max=100 reach=end,error | any 3 bytes after an escaped quote */
void h_escape(void) { around("(\"\\\"", 3, "\" x)"); }
/* @q configs=default max=200 tmax=400 reach=end | any 3 bytes after the start of a float */
void h_float(void) { around("-3.", 3, ""); }
/* @q configs=default max=60 tmax=200 reach=end | any 2 bytes after the exponent mark of a float */
void h_exponent(void) { around("1.5e", 2, ")"); }
/* @q configs=default max=60 tmax=200 reach=end | any 2 bytes after the negative exponent of a float */
void h_exponent_minus(void) { around("(7e-", 2, " 1)"); }
/* @q configs=default max=100 reach=end | any 3 bytes after the start of a hexadecimal Integer */
void h_hex(void) { around("-0x", 3, ""); }
/* @q configs=default max=100 reach=end,error | any 3 bytes after a literal expression marker */
void h_literal(void) { around("(+ #", 3, ")"); }
/* @q configs=default max=100 reach=end,error | a comment and any 3 bytes */
void h_comment(void) { around(" ; c", 3, " 7"); }
/* @q configs=default max=100 reach=end | any 2 bytes after the letters of a Boolean */
void h_true(void) { around("true", 2, ""); }
/* @q configs=default max=100 reach=end | any 2 bytes after the letters of a Boolean inside a list */
void h_false(void) { around("(fals", 2, ")"); }
/* @q configs=default | an Integer of 18 arbitrary digits with an optional sign */
void h_digits(void) {
	start(19);
	s[0] = vt_pick(2) ? '-' : '0';
	for (int i = 1; i < 19; i++) s[i] = (unsigned char) vt_range('0', '9');
	check();
}
/* @q configs=default | a hexadecimal Integer of 6 arbitrary digits */
void h_hex_digits(void) {
	start(9);
	s[0] = '-'; s[1] = '0'; s[2] = vt_pick(2) ? 'x' : 'X';
	for (int i = 3; i < 9; i++) { s[i] = vt_byte(); VT_ASSUME(r_hex(s[i])); }
	check();
}
