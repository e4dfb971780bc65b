/* Messages about refused texts: where they point, and what they show. */
#include "vt_dl.h"
#include "parser.h"
static unsigned char *s;
static long n;
/* The messages are "file:line:column", the message, the line of the text, and a marker below it, each on a line. */
static void messages(void) {
	const unsigned char *m = DLC.errors.elements;
	long len = (long) DLC.errors.elements_length, i = 0;
	while (i < len) {
		long line = 0, column = 0, digits = 0, at = 0, k;
		VT_ASSERT(i + 2 < len && m[i] == 't' && m[i + 1] == ':', "a message starts with the name of the file");
		for (i += 2; i < len && m[i] >= '0' && m[i] <= '9'; i++) { line = 10 * line + m[i] - '0'; digits++; }
		VT_ASSERT(digits > 0 && i < len && m[i] == ':', "then comes the line");
		for (i++, digits = 0; i < len && m[i] >= '0' && m[i] <= '9'; i++) { column = 10 * column + m[i] - '0'; digits++; }
		VT_ASSERT(digits > 0 && i < len && m[i] == '\n', "then comes the column");
		for (i++, digits = 0; i < len && m[i] != '\n'; i++) digits++;
		VT_ASSERT(digits > 0 && i < len, "then comes what is wrong");
		i++;
		VT_ASSERT(line > 0, "lines are counted from 1");
		for (k = 1; k < line; k++) {
			while (at < n && s[at] != '\n') at++;
			VT_ASSERT(at < n, "the line exists");
			at++;
		}
		for (k = 0; at + k < n && s[at + k] != '\n'; k++) VT_ASSERT(i + k < len && m[i + k] == s[at + k], "the line is shown");
		VT_ASSERT(column <= k, "the column exists");
		i += k;
		VT_ASSERT(i < len && m[i] == '\n', "the line is shown to its end");
		i++;
		for (k = 0; k < column; k++, i++) VT_ASSERT(i < len && m[i] == ' ', "the marker is below the column");
		for (; i < len && m[i] == '^'; i++) ;
		VT_ASSERT(i == len || m[i] == '\n', "messages are separate");
		if (i < len) i++;
		VT_REACH("message");
	}
}
static void refused(const char *a, long k, const char *b, const char *first) {
	duckLisp_ast_compoundExpression_t ast;
	duckLisp_ast_compoundExpression_init(&ast);
	vt_memory();
	memset(&DLC, 0, sizeof DLC);
	VT_ASSERT(!vt_dl_open(VT_MAXOBJ), "compiler starts");
	long la = strlen(a), lb = strlen(b);
	n = la + k + lb;
	s = malloc(n ? n : 1);
	memcpy(s, a, la);
	for (long i = 0; i < k; i++) { s[la + i] = vt_byte(); if (first) VT_ASSUME(s[la + i] != 34); }
	memcpy(s + la + k, b, lb);
	dl_error_t e = duckLisp_read(&DLC,
#ifdef USE_PARENTHESIS_INFERENCE
	                             dl_false, VT_MAXOBJ, &DLC.parenthesisInferrerTypes_array,
#endif
	                             (dl_uint8_t *) "t", 1, s, n, &ast, 0, dl_true);
	if (e) messages();
	if (first) {
		VT_ASSERT(e, "the text is refused");
		for (long i = 0; first[i]; i++) VT_ASSERT(i < (long) DLC.errors.elements_length && ((unsigned char *) DLC.errors.elements)[i] == (unsigned char) first[i], "the message says what is wrong and where");
	}
	VT_REACH("end");
}
/* @q configs=default,inference max=60 | every text of 0 to 3 bytes */
void h_message_bytes(void) { refused("", (long) vt_pick(4), "", NULL); }
/* @q configs=default,inference max=100 reach=end,message | any 3 bytes on the third line of a text, inside two open lists */
void h_message_line(void) { refused("(a\n\"x\\\"y\"\n (b ", 3, "", NULL); }
/* @q configs=default,inference max=60 reach=end,message | an unterminated string of 0 to 2 arbitrary bytes (no quotes) in 5 places of a text */
void h_message_string(void) {
	static const char *const before[] = {"\"", "(\"", "(a\n \"", "(a \"b\"\n\n(c\n  d \"", "\n\n \""};
	static const char *const first[] = {"t:1:0\nString missing closing quote.\n", "t:1:1\nString missing closing quote.\n", "t:2:1\nString missing closing quote.\n", "t:4:4\nString missing closing quote.\n", "t:3:1\nString missing closing quote.\n"};
	unsigned long k = vt_pick(5), len = vt_pick(3);
	refused(before[k], (long) len, ")", first[k]);
}
