/* Literals: from the text to the value the running program sees. */
#include "vt_dl.h"

static const char *const before[] = {"", "(__+ 0 ", "((__var x ", "(__car (__cdr (__quote (a ", "(__funcall (__lambda (x) x) ", "(__global g ", "(__comptime ", 0};
static const char *const after[] = {"", ")", ") x)", "))))", ")", ")", ")", 0};
static V at(unsigned long place, const char *text) {
	vt_n = 0;
	if (place < 7) { P(before[place]); P(text); P(after[place]); }
	else { P("(__get-vector-element (__vector 1 "); P(text); P(") 1)"); }
	return vt_value_of(0);
}
static void integer(int digits, int hex, unsigned long place) {
	char t[32];
	int k = 0;
	unsigned long v = 0;
	int neg = vt_pick(2);
	if (neg) t[k++] = '-';
	if (hex) { t[k++] = '0'; t[k++] = hex == 1 ? 'x' : 'X'; }
	for (int i = 0; i < digits; i++) {
		if (hex) {
			unsigned long d = vt_draw();
			VT_ASSUME(d < 16);
			int c = d < 10 ? '0' + d : (i & 1 ? 'a' : 'A') + d - 10;
			t[k++] = (char) vt_concrete(c);
			v = v * 16 + d;
		}
		else {
			unsigned long d = vt_draw();
			VT_ASSUME(d < 10);
			t[k++] = (char) ('0' + d);
			v = v * 10 + d;
		}
	}
	t[k] = 0;
	/* Larger literals: see h_large. */
	VT_ASSUME(neg ? v <= 2147483648UL : v <= 2147483647UL);
	VT_ASSERT(vt_same(at(place, t), vI(neg ? -(long) v : (long) v)), "the value of an Integer literal");
	VT_REACH("end");
}
/* @q configs=default,inference tconfigs=default,inference,no-optimize max=100 | every decimal literal of 1 to 4 arbitrary digits in 8 places (top level, operand, variable, quoted list, argument, global, comptime, vector) */
void h_short(void) { vt_open(0); unsigned long p = vt_pick(8); integer(1 + vt_pick(4), 0, p); }
/* @q configs=default tconfigs=default,inference,no-optimize max=60 | decimal literals around every width boundary (8, 16, 24 and 32 bits): prefix 2147483, 8388, 16777, 65, 32 or 0000000 followed by 3 arbitrary digits, in 3 places, both signs */
void h_long(void) {
	static const char *const prefix[] = {"2147483", "8388", "16777", "65", "32", "0000000", "1999999"};
	char t[32];
	int k = 0;
	vt_open(0);
	unsigned long p = 1 + vt_pick(3), f = vt_pick(7), neg = vt_pick(2), v = 0;
	if (neg) t[k++] = '-';
	for (int i = 0; prefix[f][i]; i++) { t[k++] = prefix[f][i]; v = v * 10 + prefix[f][i] - '0'; }
	for (int i = 0; i < 3; i++) {
		unsigned long d = vt_draw();
		VT_ASSUME(d < 10);
		t[k++] = (char) ('0' + d);
		v = v * 10 + d;
	}
	t[k] = 0;
	VT_ASSUME(neg ? v <= 2147483648UL : v <= 2147483647UL);
	VT_ASSERT(vt_same(at(p, t), vI(neg ? -(long) v : (long) v)), "the value of an Integer literal");
	VT_REACH("end");
}
/* @q configs=default max=100 tmax=200 | every hexadecimal literal of 2 arbitrary digits, either case of the marker */
void h_hex(void) { vt_open(0); unsigned long p = vt_pick(4), x = vt_pick(2); integer(2, 1 + x, p); }
/* @q configs=default kf=big-literal | Integer literals that need more than 32 bits */
void h_large(void) { vt_open(0); VT_ASSERT(vt_same(vt_value_of("4294967301"), vI(4294967301)), "the value of an Integer literal beyond 32 bits"); VT_REACH("end"); }

static int close_to(double a, double b) {
	double d = a > b ? a - b : b - a, m = b < 0 ? -b : b;
	return d <= m * 1e-9;
}
static const double tens[] = {1, 10, 100, 1000, 10000, 1e5, 1e6, 1e7, 1e8};
#ifdef VT_DEEP
#define STEP 4
#else
#define STEP 9
#endif
/* @q configs=default tconfigs=default,inference tdefs=VT_DEEP max=100 tmax=300 | floats of 1 or 2 digits before and 0 to 2 after the point (first digits arbitrary, second 0 or 9; every fourth in thorough), optional sign and exponent of -2 to 2, in 4 places: within 1e-9 of the exact value */
void h_float(void) {
	char t[32];
	int k = 0;
	unsigned long v = 0;
	vt_open(0);
	unsigned long place = vt_pick(4);
	int neg = vt_pick(2), ni = 1 + vt_pick(2), nf = vt_pick(3), ex = vt_pick(3), big = vt_pick(2), lower = vt_pick(2);
	if (neg) t[k++] = '-';
	for (int i = 0; i < ni; i++) { unsigned long d = vt_pick(10); if (i) VT_ASSUME(d % STEP == 0); t[k++] = '0' + d; v = v * 10 + d; }
	t[k++] = '.';
	for (int i = 0; i < nf; i++) { unsigned long d = vt_pick(10); if (i) VT_ASSUME(d % STEP == 0); t[k++] = '0' + d; v = v * 10 + d; }
	if (ex) {
		t[k++] = lower ? 'e' : 'E';
		if (big) t[k++] = '-';
		t[k++] = '0' + ex;
	}
	else if (big || lower) return;
	t[k] = 0;
	double want = (double) v / tens[nf];
	if (ex) want = big ? want / tens[ex] : want * tens[ex];
	if (neg) want = -want;
	V got = at(place, t);
	VT_ASSERT(got.t == duckVM_object_type_float, "a float");
	VT_ASSERT(close_to(got.f, want), "the value of a float literal");
	VT_REACH("end");
}
/* @q configs=default | floats that start or end with the point, many digits, large and zero exponents */
void h_float_forms(void) {
	static const char *const text[] = {".5", "-.5", "5.", "-5.", "1e3", "1E3", "1e-3", "-1e-3", "2.5e0", "2.5e-0", "0.00000000000000000000000000000000000000000000000000000000000000001", "3.14159265358979323846264338327950288419716939937510582097494459230781640628", "12345678901234567890123456789.0", "1e300", "1e-300", "0.1e-7", "0.0", "-0.0", ".25", "-.125", ".75e2", ".25E-1", "5.e2", "-12.e-1"};
	static const double value[] = {.5, -.5, 5., -5., 1e3, 1e3, 1e-3, -1e-3, 2.5, 2.5, 1e-65, 3.14159265358979323846, 12345678901234567890123456789.0, 1e300, 1e-300, 1e-8, 0, 0, .25, -.125, 75, .025, 500, -1.2};
	vt_open(0);
	unsigned long k = vt_pick(24), place = vt_pick(4);
	V got = at(place, text[k]);
	VT_ASSERT(got.t == duckVM_object_type_float, "a float");
	VT_ASSERT(close_to(got.f, value[k]), "the value of a float literal");
	VT_REACH("end");
}
/* @q configs=default,inference max=100 | string literals of 0 to 3 arbitrary bytes, quotes and backslashes escaped, in 3 places: length and every byte */
void h_string(void) {
	char t[32];
	unsigned char b[4];
	int k = 0, n;
	vt_open(0);
	unsigned long place = vt_pick(3);
	if (place == 1) place = 3;
	n = vt_pick(4);
	t[k++] = '"';
	for (int i = 0; i < n; i++) {
		b[i] = vt_byte();
		if (b[i] == '"' || b[i] == '\\') t[k++] = '\\';
		t[k++] = b[i];
	}
	t[k++] = '"';
	vt_open_out();
	P("((__var s "); P(place == 2 ? "" : before[place]);
	for (int i = 0; i < k; i++) PC(t[i]);
	P(place == 2 ? "" : after[place]); P(") (out (__length s)) ");
	for (int i = 0; i < n; i++) { P("(out (__get-vector-element s "); PU(i); P(")) "); }
	P("1)");
	VT_ASSERT(vt_same(vt_value_of(0), vI(1)), "the program runs");
	VT_ASSERT(vt_nout == n + 1 && vt_same(vt_out[0], vI(n)), "the length of a string literal");
	for (int i = 0; i < n; i++) VT_ASSERT(vt_same(vt_out[i + 1], vI(b[i])), "the bytes of a string literal");
	vt_close();
	VT_REACH("end");
}
/* @q configs=default | an escaped character is itself except that n is a newline: every byte after the backslash */
void h_escape(void) {
	vt_open(0);
	unsigned char c = vt_byte();
	P("(__+ 0 (__get-vector-element \"a\\"); PC(c); P("b\" 1))");
	VT_ASSERT(vt_same(vt_value_of(0), vI(c == 'n' ? '\n' : c)), "an escaped character");
	VT_REACH("end");
}
static char *big;
static long nbig;
static void B(const char *s) { while (*s) big[nbig++] = *s++; }
static V run_big(void) {
	dl_uint8_t *bc = 0;
	dl_size_t n = 0;
	VT_ASSERT(!duckLisp_loadString(&DLC,
#ifdef USE_PARENTHESIS_INFERENCE
	                           dl_false,
#endif
	                           &bc, &n, (dl_uint8_t *) big, nbig, (dl_uint8_t *) "t", 1), "the program compiles");
	VT_ASSERT(!duckVM_execute(&VM, bc, n), "the program executes");
	VT_ASSERT(!DL_FREE(&MA, &bc), "bytecode can be freed");
	return vt_top(&VM);
}
static void long_string(long len, int name) {
	vt_open(0);
	vt_open_out();
	big = malloc(len + 200);
	nbig = 0;
	unsigned char c = vt_byte(), d = vt_byte();
	if (name) VT_ASSUME(c > ';' && d > ';');
	else VT_ASSUME(c != '"' && c != '\\' && d != '"' && d != '\\');
	B(name ? "((__var s (__symbol-string (__quote " : "((__var s \"");
	for (long i = 0; i < len; i++) big[nbig++] = i == 0 ? c : i == len - 1 ? d : 'a' + i % 20;
	B(name ? ")))" : "\")");
	B(" (out (__length s)) (out (__get-vector-element s 0)) (out (__get-vector-element s ");
	vt_n = 0; PU(len - 1); PC(0); B(vt_src);
	B(")) (out (__get-vector-element s 100)) 1)");
	VT_ASSERT(vt_same(run_big(), vI(1)), "the program's value");
	long want[] = {len, c, d, 'a' + 100 % 20};
	VT_ASSERT(vt_nout == 4, "four results");
	for (int i = 0; i < 4; i++) VT_ASSERT(vt_same(vt_out[i], vI(want[i])), "length, first, last and inner byte of a long literal");
	vt_close();
	VT_REACH("end");
}
/* @q configs=default tconfigs=default,no-optimize reach=end steps=400000000 | string literals and symbol names of 254 to 257 bytes, arbitrary first and last byte */
void h_long_string(void) { unsigned long l = vt_pick(4), k = vt_pick(2); long_string(254 + l, k); }
