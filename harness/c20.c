/* The containers (DuckLib/array.c, trie.c), sorting functions (sort.c) and conversions (string.c, core.c) against models; one allocation may fail. */
#include "vt.h"
#include "vt_alloc.h"
#include "DuckLib/core.h"
#include "DuckLib/memory.h"
#include "DuckLib/array.h"
#include "DuckLib/trie.h"
#include "DuckLib/string.h"
#include "DuckLib/sort.h"
#include <string.h>
#ifdef USE_DUCKLIB_MALLOC
#error "for malloc"
#endif
static dl_memoryAllocation_t ma;

/* Arrays. */
#ifndef ARRAY_OPS
#define ARRAY_OPS 3
#endif
#define CAP 24
static dl_array_t a;
static unsigned char model[CAP][12];
static dl_size_t count;
static void draw(unsigned char *p, unsigned long n) { for (unsigned long i = 0; i < n; i++) p[i] = vt_byte(); }
static int same(const unsigned char *p, const unsigned char *q, unsigned long n) { int ok = 1; for (unsigned long i = 0; i < n; i++) ok &= p[i] == q[i]; return ok; }
static void array_is(unsigned long size) {
	unsigned char out[12];
	VT_ASSERT(a.elements_length == count, "the length");
	VT_ASSERT(a.elements_memorySize >= count * size, "the memory holds the elements");
	for (dl_size_t i = 0; i < count; i++) {
		VT_ASSERT(!dl_array_get(&a, out, (dl_ptrdiff_t) i), "an element can be read");
		VT_ASSERT(same(out, model[i], size), "an element is what was put there");
		VT_ASSERT(same((unsigned char *) a.elements + i * size, model[i], size), "elements lie next to each other");
	}
}
static dl_error_t array_op(unsigned long size, int *grows) {
	unsigned char in[36], out[36];
	unsigned long op = vt_pick(8), k;
	dl_error_t e;
	*grows = 0;
	memset(out, 0xEE, sizeof out);
	switch (op) {
	case 0: case 1: /* one element, given or empty */
		if (op) draw(in, size); else memset(in, 0, size);
		*grows = 1;
		if ((e = dl_array_pushElement(&a, op ? in : NULL))) return e;
		memcpy(model[count++], in, size);
		return e;
	case 2: case 3: /* none, one or three elements */
		k = vt_pick(3);
		k += k == 2;
		if (op == 3) draw(in, k * size); else memset(in, 0, k * size);
		*grows = k > 0;
		if ((e = dl_array_pushElements(&a, op == 3 ? in : NULL, k))) return e;
		for (unsigned long i = 0; i < k; i++) memcpy(model[count++], in + i * size, size);
		return e;
	case 4:
		k = vt_pick(2);
		e = dl_array_popElement(&a, k ? out : NULL);
		VT_ASSERT(e == (count ? dl_error_ok : dl_error_bufferUnderflow), "only an empty array has no last element");
		if (!e) { count--; if (k) VT_ASSERT(same(out, model[count], size), "the last element is popped"); }
		return dl_error_ok;
	case 5: {
		unsigned long n = vt_draw();
		e = dl_array_popElements(&a, NULL, n);
		VT_ASSERT(e == (n <= count ? dl_error_ok : dl_error_bufferUnderflow), "at most all elements can be popped");
		if (!e) { n = vt_concrete(n); count -= n; }
		return dl_error_ok;
	}
	case 6: {
		long i = (long) vt_draw();
		draw(in, size);
		e = dl_array_get(&a, out, i);
		VT_ASSERT(e == (i >= 0 && (unsigned long) i < count ? dl_error_ok : dl_error_invalidValue), "only elements can be read");
		VT_ASSERT(dl_array_set(&a, in, i) == e, "only elements can be set");
		if (!e) { i = (long) vt_concrete((unsigned long) i); VT_ASSERT(same(out, model[i], size), "an element is read"); memcpy(model[i], in, size); }
		return dl_error_ok;
	}
	default:
		draw(in, size);
		e = dl_array_getTop(&a, out);
		VT_ASSERT(e == (count ? dl_error_ok : dl_error_bufferUnderflow), "only an empty array has no top");
		if (!e) VT_ASSERT(same(out, model[count - 1], size), "the top is the last element");
		VT_ASSERT(dl_array_setTop(&a, in) == e, "the top can be set");
		if (!e) memcpy(model[count - 1], in, size);
		return dl_error_ok;
	}
}
static void array_history(int fail) {
	static const unsigned char sizes[] = {1, 12};
	unsigned long size = sizes[vt_pick(2)], strategy = vt_pick(2);
	int grows;
	dl_array_init(&a, &ma, size, strategy ? dl_array_strategy_double : dl_array_strategy_fit);
	VT_ASSERT(a.elements_length == 0, "an array is empty at first");
	for (int i = 0; i < ARRAY_OPS - fail; i++) {
		if (fail && i == 2) { vt_failed = 0; vt_fail_at = vt_allocs; }
		dl_error_t e = array_op(size, &grows);
		vt_fail_at = -1;
		VT_ASSERT(!e || (grows && fail && vt_failed), "nothing but a failing allocation makes pushing fail");
		if (e) { VT_ASSERT(e == dl_error_outOfMemory, "the error of a failing allocation"); VT_REACH("failed"); }
		array_is(size);
	}
	if (vt_pick(2)) {
		VT_ASSERT(!dl_array_clear(&a), "an array can be cleared");
		count = 0;
		VT_ASSERT(a.elements_length == 0, "a cleared array is empty");
		draw(model[0], size);
		VT_ASSERT(!dl_array_pushElement(&a, model[0]), "an element can be pushed");
		count = 1;
		array_is(size);
	}
	VT_ASSERT(!dl_array_quit(&a), "an array can be freed");
	VT_ASSERT(vt_live == 0, "all memory of an array is freed");
	VT_REACH("end");
}
/* @q configs=default max=200 tdefs=ARRAY_OPS=4 tmax=700 reach=end | every sequence of 3 of 8 operations on arrays of elements of 1 and 12 arbitrary bytes, both strategies, arbitrary 64-bit indices and counts to pop, optionally cleared and used again in the end (thorough: 4) */
void h_array(void) { array_history(0); }
/* @q configs=default max=200 defs=ARRAY_OPS=4 reach=end,failed | the same with a failing allocation in the third operation */
void h_array_fails(void) { array_history(1); }

/* Tries. */
#ifndef KEYS
#define KEYS 4
#endif
#ifndef KEYLEN
#define KEYLEN 3
#endif
static dl_trie_t t;
static struct { unsigned char k[KEYLEN]; unsigned long n; long v; } keys[KEYS];
static int nkeys;
static long lookup(const unsigned char *k, unsigned long n) {
	for (int i = nkeys - 1; i >= 0; i--) if (keys[i].n == n && same(keys[i].k, k, n)) return keys[i].v;
	return -1;
}
static long found(const unsigned char *k, unsigned long n) { dl_ptrdiff_t i = -2; dl_trie_find(t, &i, k, n); return i; }
static void trie_is(void) { for (int i = 0; i < nkeys; i++) VT_ASSERT(found(keys[i].k, keys[i].n) == lookup(keys[i].k, keys[i].n), "a key has its value"); }
static void trie_history(int fail) {
	unsigned char k[KEYLEN];
	dl_trie_init(&t, &ma, -1);
	VT_ASSERT(found(k, 0) == -1, "a trie is empty at first");
	for (int i = 0; i < KEYS - 1 + !fail; i++) {
		keys[i].n = 1 + vt_pick(KEYLEN);
		/* Lengths matter relative to each other; all contents are possible. */
		draw(keys[i].k, keys[i].n);
		keys[i].v = (long) (vt_draw() >> 1);
		if (fail && i == KEYS - 2) { long f = (long) vt_pick(5); vt_failed = 0; vt_fail_at = vt_allocs + f; }
		dl_error_t e = dl_trie_insert(&t, keys[i].k, keys[i].n, keys[i].v);
		vt_fail_at = -1;
		VT_ASSERT(!e || (fail && vt_failed && e == dl_error_outOfMemory), "a key is inserted");
		if (e) { VT_REACH("failed"); VT_ASSERT(found(keys[i].k, keys[i].n) == lookup(keys[i].k, keys[i].n), "a key that was not inserted is what it was"); }
		else nkeys++;
		trie_is();
		if (e) break;
	}
	unsigned long n = vt_pick(KEYLEN + 1);
	draw(k, n);
	VT_ASSERT(found(k, n) == lookup(k, n), "a key is found only if it was inserted");
	VT_ASSERT(!dl_trie_quit(&t), "a trie can be freed");
	VT_ASSERT(vt_live == 0, "all memory of a trie is freed");
	VT_REACH("end");
}
/* @q configs=default max=300 tdefs=KEYS=4,KEYLEN=3 defs=KEYS=3,KEYLEN=3 tmax=700 reach=end | 3 (thorough: 4) insertions of arbitrary keys of 1 to 3 bytes with arbitrary values, then a search for every inserted key and for an arbitrary key of 0 to 3 bytes */
void h_trie(void) { trie_history(0); }
/* @q configs=default max=300 defs=KEYS=4,KEYLEN=2 tdefs=KEYS=4,KEYLEN=3 tmax=700 reach=end,failed | the same with a failing allocation in the last of 3 insertions of keys of 1 to 2 (thorough: 3) bytes */
void h_trie_fails(void) { trie_history(1); }

/* Sorting. */
#ifndef ITEMS
#define ITEMS 5
#endif
static const int token = 1;
static int compare(const void *l, const void *r, const void *context) {
	VT_ASSERT(context == &token, "the context is passed");
	unsigned char x = *(const unsigned char *) l, y = *(const unsigned char *) r;
	return x < y ? -1 : x > y;
}
/* @q configs=default max=200 reach=end | heapsort and both quicksorts of 0 to 5 arbitrary items of 1 and 3 bytes */
void h_sort(void) {
	unsigned char x[ITEMS + 1][3], y[(ITEMS + 1) * 3];
	unsigned long n = vt_pick(ITEMS + 1), how = vt_pick(3), size = vt_pick(2) ? 3 : 1;
	for (unsigned long i = 0; i < n; i++) { x[i][0] = vt_byte(); x[i][1] = (unsigned char) i; x[i][2] = x[i][0] ^ 0x5A; memcpy(y + i * size, x[i], size); }
	y[n * size] = 0xEE;
	if (how == 0) heapsort(y, n, size, compare, &token);
	else if (how == 1) quicksort_lomuto(y, n, size, 0, (dl_ptrdiff_t) n - 1, compare, &token);
	else quicksort_hoare(y, n, size, 0, (dl_ptrdiff_t) n - 1, compare, &token);
	VT_ASSERT(y[n * size] == 0xEE, "nothing behind the items is touched");
	unsigned long seen = 0;
	for (unsigned long i = 0; i < n; i++) {
		unsigned char *p = y + i * size;
		if (i) VT_ASSERT(p[-(long) size] <= p[0], "the items are in order");
		if (size == 3) {
			VT_ASSERT(p[1] < n && !(seen >> p[1] & 1), "each item is there once");
			seen |= 1ul << p[1];
			VT_ASSERT(p[0] == x[p[1]][0] && p[2] == x[p[1]][2], "an item stays in one piece");
		}
	}
	if (size == 1) for (unsigned long i = 0; i < n; i++) {
		unsigned long c = 0, d = 0;
		for (unsigned long j = 0; j < n; j++) { c += x[j][0] == y[i]; d += y[j] == y[i]; }
		VT_ASSERT(c == d, "an item is there as often as before");
	}
	VT_REACH("end");
}

/* Conversions. */
static int text_is(const char *s) { unsigned long i = 0; while (s[i]) { if (i >= a.elements_length || ((unsigned char *) a.elements)[i] != (unsigned char) s[i]) return 0; i++; } return i == a.elements_length; }
/* @q configs=default max=200 reach=end,some | decimal text of every Integer of at most 3 digits and of those within 2 of a power of 2 or 10, with something in front, and back; sizes and bytes likewise */
void h_decimal(void) {
	char want[32]; char back[24]; int n = 0, k = 0;
	unsigned long kind = vt_pick(3), magnitude, negative = 0;
	if (kind == 2) magnitude = vt_concrete(vt_byte());
	else if (vt_pick(2)) { magnitude = vt_range(0, 999); VT_REACH("some"); negative = kind == 0 && vt_pick(2); }
	else {
		unsigned long p = vt_pick(64 + 20), d = vt_pick(5);
		magnitude = 1;
		if (p < 64) magnitude <<= p; else for (unsigned long i = 64; i < p; i++) magnitude *= 10;
		magnitude += d - 2;
		if (kind == 0) { negative = magnitude >> 63; magnitude = negative ? -magnitude : magnitude; if (!negative && vt_pick(2)) negative = 1; }
	}
	dl_array_init(&a, &ma, 1, vt_pick(2) ? dl_array_strategy_double : dl_array_strategy_fit);
	unsigned char x = 'x';
	VT_ASSERT(!dl_array_pushElement(&a, &x), "a byte can be pushed");
	want[n++] = 'x';
	if (kind == 0 && negative && magnitude) want[n++] = '-';
	unsigned long m = magnitude;
	do { back[k++] = (char) ('0' + m % 10); m /= 10; } while (m);
	while (k) want[n++] = back[--k];
	want[n] = 0;
	long i = (long) (negative ? -magnitude : magnitude), j;
	VT_ASSERT(!(kind == 0 ? dl_string_fromPtrdiff(&a, i) : kind == 1 ? dl_string_fromSize(&a, magnitude) : dl_string_fromUint8(&a, (dl_uint8_t) magnitude)), "a number has a text");
	VT_ASSERT(text_is(want), "the decimal text");
	if (kind == 0) {
		VT_ASSERT(!dl_string_toPtrdiff(&j, (dl_uint8_t *) a.elements + 1, a.elements_length - 1), "the text is a number");
		VT_ASSERT(i == j, "the text stands for the number");
	}
	VT_ASSERT(!dl_array_quit(&a) && vt_live == 0, "all memory is freed");
	VT_REACH("end");
}
static int hex(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
#ifndef TEXT
#define TEXT 5
#endif
/* @q configs=default max=200 tdefs=TEXT=7 reach=end,number,other | every text of 0 to 5 (thorough: 7) bytes as an Integer and as a Bool; every byte as a character of each class */
void h_text(void) {
	unsigned char s[TEXT]; dl_bool_t b; long v; unsigned long n = vt_pick(TEXT + 1);
	draw(s, n);
	/* Bool */
	unsigned long is_true = n == 4 && same(s, (unsigned char *) "true", 4), is_false = n == 5 && same(s, (unsigned char *) "false", 5);
	dl_error_t e = dl_string_toBool(&b, s, n);
	VT_ASSERT((e == dl_error_ok) == (is_true || is_false), "true and false are the Bools");
	if (!e) VT_ASSERT(b == is_true, "the Bool");
	/* Integer */
	unsigned long i = 0, value = 0, base = 10, ok;
	if (i < n && s[i] == '-') i++;
	ok = i < n && s[i] >= '0' && s[i] <= '9';
	if (ok && i + 1 < n && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X')) { base = 16; i += 2; VT_ASSUME(i < n); }
	for (; ok && i < n; i++) {
		int d = hex(s[i]);
		if (d < 0 || (unsigned long) d >= base) ok = 0; else value = value * base + (unsigned long) d;
	}
	e = dl_string_toPtrdiff(&v, s, n);
	VT_ASSERT((e == dl_error_ok) == ok, "exactly the texts of Integers are Integers");
	if (ok) { VT_ASSERT((unsigned long) v == (s[0] == '-' ? -value : value), "the value of a text"); VT_REACH("number"); }
	else VT_REACH("other");
	/* Characters */
	unsigned char c = vt_byte();
	VT_ASSERT(!dl_string_isDigit(c) == !(c >= '0' && c <= '9'), "digits");
	VT_ASSERT(!dl_string_isHexadecimalDigit(c) == (hex(c) < 0), "hexadecimal digits");
	VT_ASSERT(!dl_string_isAlpha(c) == !((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')), "letters");
	VT_ASSERT(!dl_string_isSpace(c) == !(c <= 32), "spaces");
	VT_ASSERT(hex(dl_nybbleToHexChar(c)) == (c & 15), "a hexadecimal digit");
	VT_REACH("end");
}
#ifndef DTEXT
#define DTEXT 5
#endif
static int digit(unsigned char c) { return c >= '0' && c <= '9'; }
/* @q configs=default max=200 tdefs=DTEXT=6 tmax=400 reach=end,number,other | every text of 0 to 5 (thorough: 6) bytes as a Float, a number or not; digits of an exponent 0 or 1 */
void h_double_text(void) {
	unsigned char s[DTEXT]; double v; unsigned long n = vt_pick(DTEXT + 1), i = 0, ok = 1;
	draw(s, n);
	if (i < n && s[i] == '-') i++;
	if (i < n && s[i] == '.') { i++; ok = i < n && digit(s[i]); while (i < n && digit(s[i])) i++; }
	else {
		ok = i < n && digit(s[i]);
		while (i < n && digit(s[i])) i++;
		if (i < n && s[i] == '.') { i++; while (i < n && digit(s[i])) i++; }
	}
	if (ok && i < n && (s[i] == 'e' || s[i] == 'E')) {
		i++;
		if (i < n && s[i] == '-') i++;
		ok = i < n && digit(s[i]);
		for (; i < n && digit(s[i]); i++) VT_ASSUME(s[i] <= '1');
	}
	ok = ok && i == n;
	VT_ASSERT((dl_string_toDouble(&v, s, n) == dl_error_ok) == ok, "exactly the texts of Floats are Floats");
	if (ok) VT_REACH("number"); else VT_REACH("other");
	VT_REACH("end");
}
/* @q configs=default max=200 reach=end | the value of Floats of 0 to 3 digits (0, 5 or 9) before and after the point, optional sign, exponents -300 to 300 of 1 to 3 digits: within 1e-9 of the exact value */
void h_double_value(void) {
	static const unsigned char digits[] = {'0', '5', '9'};
	static const char *const powers[] = {"", "e0", "E1", "e-1", "e2", "e-02", "e010", "E-10", "e22", "e-22", "e100", "e-100", "e300", "e-300"};
	static const double factor[] = {1, 1, 10, .1, 100, .01, 1e10, 1e-10, 1e22, 1e-22, 1e100, 1e-100, 1e300, 1e-300};
	unsigned char s[20]; double got, want = 0, scale = 1; unsigned long n = 0;
	unsigned long negative = vt_pick(2), before = vt_pick(4), point = vt_pick(2), after = point ? vt_pick(4) : 0, p = vt_pick(14);
	VT_ASSUME(before || after);
	if (negative) s[n++] = '-';
	for (unsigned long i = 0; i < before; i++) { s[n] = digits[vt_pick(3)]; want = want * 10 + (s[n++] - '0'); }
	if (point) s[n++] = '.';
	for (unsigned long i = 0; i < after; i++) { s[n] = digits[vt_pick(3)]; want = want * 10 + (s[n++] - '0'); scale *= 10; }
	for (const char *t = powers[p]; *t; t++) s[n++] = (unsigned char) *t;
	want = want / scale * factor[p];
	if (negative) want = -want;
	VT_ASSERT(!dl_string_toDouble(&got, s, n), "the text is a number");
	double d = got > want ? got - want : want - got;
	VT_ASSERT(d <= (want < 0 ? -want : want) * 1e-9, "the value of a text");
	VT_REACH("end");
}
/* @q configs=default reach=end | comparison of every two texts of 0 to 4 bytes, and of parts of them; copies and clears of 0 to 6 bytes at every distance; the length of texts of 0 to 11 bytes that end in a zero */
void h_bytes(void) {
	unsigned char s[6], u[6], w[12], z[12]; dl_bool_t b;
	unsigned long n = vt_pick(5), m = vt_pick(5);
	draw(s, n); draw(u, m);
	dl_string_compare(&b, s, n, u, m);
	VT_ASSERT(b == (n == m && same(s, u, n)), "texts are equal if all bytes are");
	unsigned long l = vt_pick((n < m ? n : m) + 1);
	dl_string_compare_partial(&b, s, u, l);
	VT_ASSERT(b == same(s, u, l), "parts of texts are equal if all bytes are");
	draw(w, 12);
	memcpy(z, w, 12);
	unsigned long from = vt_pick(7), to = vt_pick(7), k = vt_pick(6);
	dl_memcopy(w + to, w + from, k);
	for (unsigned long i = 0; i < 12; i++) VT_ASSERT(w[i] == (i >= to && i < to + k ? z[i - to + from] : z[i]), "bytes are copied");
	memcpy(w, z, 12);
	dl_memclear(w + to, k);
	for (unsigned long i = 0; i < 12; i++) VT_ASSERT(w[i] == (i >= to && i < to + k ? 0 : z[i]), "bytes are cleared");
	memcpy(w, z, 12);
	dl_memcopy_noOverlap(s, w + from, k);
	VT_ASSERT(same(s, w + from, k), "bytes are copied");
	unsigned long length, zeros = vt_pick(12);
	for (unsigned long i = 0; i < zeros; i++) VT_ASSUME(z[i]);
	z[zeros] = 0;
	dl_strlen(&length, z);
	VT_ASSERT(length == zeros, "the length of a text that ends in a zero byte");
	VT_REACH("end");
}
