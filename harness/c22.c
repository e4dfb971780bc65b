/* The disassembly of a program is its bytecode: every instruction, in order, with its operands. */
#define VT_SRCMAX 16384
#include "vt_dl.h"

/* Operands: w as wide as the instruction says, 1 and 4 bytes, s bytes, v entries of that width and V entries of 4 bytes as
   counted by the operand before, f a Float. */
typedef struct { int op; const char *name; int width; const char *operands; } row;
#define R(op, name, operands) {duckLisp_instruction_##op, name, 1, operands}
#define W(op, name, operands) {duckLisp_instruction_##op##8, name ".8", 1, operands}, {duckLisp_instruction_##op##16, name ".16", 2, operands}, \
	{duckLisp_instruction_##op##32, name ".32", 4, operands}
static const row rows[] = {
	R(nop, "nop", ""), R(nil, "nil", ""), R(pushBooleanFalse, "false", ""), R(pushBooleanTrue, "true", ""), R(pushDoubleFloat, "double-float", "f"),
	R(makeType, "makeType", ""), R(return0, "return.0", ""), R(halt, "halt", ""),
	W(pushString, "string", "ws"), W(pushSymbol, "symbol", "wws"), W(pushStrippedSymbol, "stripped-symbol", "w"), W(pushInteger, "integer", "w"),
	W(pushIndex, "index", "w"), W(pushUpvalue, "upvalue", "w"), W(pushGlobal, "global", "w"), W(setUpvalue, "set-upvalue", "ww"),
	W(setGlobal, "set-global", "ww"), W(pushClosure, "closure", "w14V"), W(pushVaClosure, "variadic-closure", "w14V"),
	W(releaseUpvalues, "release-upvalues", "wv"), W(funcall, "funcall", "w1"), W(apply, "apply", "w1"), W(ccall, "c-call", "w"),
	W(jump, "jump", "w"), W(brz, "brz", "w1"), W(brnz, "brnz", "w1"), W(move, "move", "ww"), W(pop, "pop", "w"), W(return, "return", "w"),
	W(not, "not", "w"), W(mul, "mul", "ww"), W(div, "div", "ww"), W(add, "add", "ww"), W(sub, "sub", "ww"), W(equal, "equal", "ww"),
	W(greater, "greater", "ww"), W(less, "less", "ww"), W(cons, "cons", "ww"), W(vector, "vector", "wv"), W(makeVector, "makeVector", "ww"),
	W(getVecElt, "getVecElt", "ww"), W(setVecElt, "setVecElt", "www"), W(car, "car", "w"), W(cdr, "cdr", "w"), W(setCar, "setCar", "ww"),
	W(setCdr, "setCdr", "ww"), W(nullp, "null?", "w"), W(typeof, "typeof", "w"), W(makeInstance, "makeInstance", "www"),
	W(compositeValue, "compositeValue", "w"), W(compositeFunction, "compositeFunction", "w"), W(setCompositeValue, "setCompositeValue", "ww"),
	W(setCompositeFunction, "setCompositeFunction", "ww"), W(makeString, "makeString", "w"), W(concatenate, "concatenate", "ww"),
	W(substring, "substring", "www"), W(length, "length", "w"), W(symbolString, "symbolString", "w"), W(symbolId, "symbolId", "w"),
};
enum { NROWS = sizeof rows / sizeof *rows };
static const row *of[256];
static void open_rows(void) { for (int k = 0; k < NROWS; k++) of[rows[k].op] = &rows[k]; }

/* The text is read from left to right. */
static const dl_uint8_t *text; static dl_size_t text_length, at;
static void open_text(const dl_array_t *string) {
	text = string->elements; text_length = string->elements_length; at = 0;
	VT_ASSERT(text_length > 0 && text[text_length - 1] == 0, "the disassembly is a C string");
}
static void expect_byte(dl_uint8_t c) { VT_ASSERT(at < text_length && text[at] == c, "the disassembly shows the bytecode"); at++; }
static void expect(const char *s) { while (*s) expect_byte((dl_uint8_t) *s++); }
static dl_uint8_t digit(int d) { return (dl_uint8_t) (d < 10 ? '0' + d : 'A' + d - 10); }
static void expect_hex(dl_uint8_t c) {
	VT_ASSERT(at + 1 < text_length && text[at] == digit(c >> 4) && text[at + 1] == digit(c & 15), "the disassembly shows the operands");
	at += 2;
}
static unsigned seen[256];
/* The text is the disassembly of the code. */
static void check(const dl_uint8_t *code, dl_size_t n) {
	dl_size_t k = 0;
	expect("DISASSEMBLY START\n");
	while (k < n) {
		const row *r = of[code[k++]];
		VT_ASSERT(r != NULL, "every instruction is known");
		seen[r->op]++;
		expect(r->name);
		unsigned long last = 0;
		for (const char *o = r->operands; *o; o++) {
			int w = *o == '1' ? 1 : *o == '4' || *o == 'V' ? 4 : r->width;
			if (*o == 'f') { k += 8; continue; }
			if (*o == 's') {
				expect(" \"");
				for (unsigned long m = 0; m < last; m++, k++) {
					VT_ASSERT(k < n, "a string lies inside of the bytecode");
					dl_uint8_t c = code[k];
					int blank = c <= ' ' && c != '\n' && c != '\r';
					VT_ASSERT(at < text_length && (blank ? text[at] == ' ' : text[at] == c), "the disassembly shows strings");
					at++;
				}
				expect("\"");
				continue;
			}
			unsigned long times = *o == 'v' || *o == 'V' ? last : 1;
			for (unsigned long m = 0; m < times; m++) {
				unsigned long value = 0;
				expect(" ");
				for (int b = 0; b < w; b++, k++) {
					VT_ASSERT(k < n, "an operand lies inside of the bytecode");
					expect_hex(code[k]);
					value = value << 8 | code[k];
				}
				if (*o != 'v' && *o != 'V') last = value;
			}
		}
		expect("\n");
	}
	VT_ASSERT(k == n, "instructions are complete");
	expect("DISASSEMBLY END\n");
	VT_ASSERT(at == text_length - 1, "the disassembly ends");
}
static dl_size_t hex_of(int c) { return c <= '9' ? c - '0' : c - 'A' + 10; }
/* The text is some disassembly: of the bytecode of macros and compile-time code. */
static void check_text(void) {
	expect("DISASSEMBLY START\n");
	for (;;) {
		dl_size_t start = at;
		while (at < text_length && text[at] != ' ' && text[at] != '\n') at++;
		VT_ASSERT(at < text_length, "a line ends");
		if (text[start] == 'D') break;   /* DISASSEMBLY END */
		const row *r = NULL;
		for (int k = 0; k < NROWS && !r; k++) {
			dl_size_t m = 0;
			while (rows[k].name[m] && m < at - start && text[start + m] == (dl_uint8_t) rows[k].name[m]) m++;
			if (!rows[k].name[m] && m == at - start) r = &rows[k];
		}
		VT_ASSERT(r != NULL, "every line names an instruction");
		unsigned long last = 0;
		for (const char *o = r->operands; *o; o++) {
			int w = *o == '1' ? 1 : *o == '4' || *o == 'V' ? 4 : r->width;
			if (*o == 'f') continue;
			if (*o == 's') { expect(" \""); at += last; expect("\""); continue; }
			unsigned long times = *o == 'v' || *o == 'V' ? last : 1;
			for (unsigned long m = 0; m < times; m++) {
				unsigned long value = 0;
				expect(" ");
				for (int b = 0; b < 2 * w; b++) {
					VT_ASSERT(at < text_length && (text[at] >= '0' && text[at] <= '9' || text[at] >= 'A' && text[at] <= 'F'), "operands are hexadecimal");
					value = value << 4 | hex_of(text[at++]);
				}
				if (*o != 'v' && *o != 'V') last = value;
			}
		}
		expect("\n");
	}
	expect(" END\n");
	VT_ASSERT(at == text_length - 1, "the disassembly ends");
}

static unsigned long nbytes, arbitrary;
/* One byte of the operands is arbitrary, the others are all different. */
static dl_uint8_t byte(void) {
	unsigned long k = nbytes++;
	return k == arbitrary ? (dl_uint8_t) vt_draw() : (dl_uint8_t) (0x9D + 29 * k);
}
/* @q configs=default max=200 reach=end | every instruction with 0 to 2 (with wider counts also 258) counted entries or bytes, any one byte of its operands arbitrary and the others different, between 0 to 1 and two other instructions */
void h_instruction(void) {
	dl_uint8_t *code; dl_size_t n = 0; dl_array_t string;
	vt_memory(); open_rows();
	const row *r = &rows[vt_pick(NROWS)];
	code = malloc(2048);
	arbitrary = vt_pick(16);
	if (vt_pick(2)) { code[n++] = duckLisp_instruction_pushIndex8; code[n++] = byte(); }
	code[n++] = (dl_uint8_t) r->op;
	unsigned long count = vt_pick(4);
	if (count == 3) {
		const char *o = r->operands;
		while (*o && o[1] != 's' && o[1] != 'v' && o[1] != 'V') o++;
		if (!*o || (*o == 'w' && r->width == 1) || arbitrary) return;
		count = 258;
	}
	for (const char *o = r->operands; *o; o++) {
		int w = *o == '1' ? 1 : *o == '4' || *o == 'V' ? 4 : r->width;
		int counts = o[1] == 's' || o[1] == 'v' || o[1] == 'V';
		unsigned long bytes = *o == 'f' ? 8 : *o == 's' ? count : *o == 'v' || *o == 'V' ? count * w : w;
		for (unsigned long m = 0; m < bytes; m++) code[n++] = counts ? (dl_uint8_t) (count >> 8 * (bytes - 1 - m)) : byte();
	}
	code[n++] = duckLisp_instruction_pushUpvalue16; code[n++] = byte(); code[n++] = byte();
	code[n++] = duckLisp_instruction_return0;
	if (arbitrary >= nbytes) return;
	code = realloc(code, n);        /* nothing may be read behind the code */
	VT_ASSERT(!duckLisp_disassemble(&string, &MA, code, n), "bytecode is disassembled");
	open_text(&string);
	check(code, n);
	VT_ASSERT(!dl_array_quit(&string), "the text is released");
	VT_REACH("end");
}

static const char *const programs[] = {
	"42", "-300", "70000", "1.5", "true", "()", "\"a b\"", "\"tab\tand\nline\"", "\"\"", "(__quote abc)", "(__quote (a \"b\" 1 2.5 (c . ())))",
	"(__vector 1 2)", "(__vector)", "(out (__vector (in0) (__vector 1 2 3) 300))", "(__make-vector (in0) 3)",
	"((__var v (__make-vector 3 0)) (__set-vector-element v 1 (in0)) (out (__get-vector-element v 1)))",
	"((__var x (in0)) (__setq x (__+ x 1)) (out (__- x (__* x (__/ x 2)))))",
	"((__var x (in0)) (__var f (__lambda (a b) (__setq x (__+ a b)) (__lambda () x))) (out (__funcall (__funcall f 1 2))))",
	"((__var f (__lambda (a &rest b) (__cons a b))) (out (__car (__funcall f 1 2 3))) (out (__cdr (__apply f 1 (__quote (2 3))))))",
	"((__defun f (n) (__if (__> n 0) (self (__- n 1)) n)) (out (f 3)))",
	"((__var i 0) (__while (__< i 3) (__setq i (__+ i 1)) ((__var k i) (__setq g (__lambda () k)))) (out (__funcall g)))",
	"((__var i 0) (__unless (__= i 0) (out 1) (out 2)) (__when (__not i) (out 3)) (__setq global-name i) (out global-name))",
	"((__var c (__cons 1 2)) (__set-car c 3) (__set-cdr c 4) (out (__null? c)) (out (__type-of c)))",
	"((__var t (__make-type)) (__var c (__make-instance t 1 (__lambda () 2))) (__set-composite-value c 3) (__set-composite-function c (__lambda () 4)) (out (__composite-value c)) (out (__composite-function c)))",
	"((__var s (__concatenate \"ab\" \"cd\")) (out (__length s)) (out (__substring s 1 3)) (out (__make-string (__quote (65 66)))) (out (__symbol-string (__quote q))) (out (__symbol-id (__quote q))))",
	"((__defmacro twice (x) (__list (__quote __+) x x)) (out (twice (in0))))",
	"((__defmacro pair (x) (__list (__quote __vector) x 1 2)) (out (pair (in0))))",
	"(out (__comptime ((__var v (__vector 1 2 3)) (__get-vector-element v 1))))",
	"((__comptime (__setq k 5)) (out (__comptime k)) (out (__quote (symbol name))))",
};
enum { NPROGRAMS = sizeof programs / sizeof *programs };
static void open_compiler(int strip, int dis) {
	vt_open_n(1, 120); vt_open_out();
	DLC.stripSymbolNames = strip;
	DLC.disassemble = dis;
}
static void close_compiler(void) {
	duckVM_quit(&VM); duckLisp_quit(&DLC);
#ifndef USE_DUCKLIB_MALLOC
	VT_ASSERT(vt_live == 0, "everything is freed");
#endif
}
/* Compiles the text with and without disassembly. */
static dl_size_t disassemblies;
static void compile_both(int strip) {
	static dl_uint8_t plain[32768];
	dl_size_t n; dl_array_t string;
	open_compiler(strip, 0);
	VT_ASSERT(!vt_compile(), "the program compiles");
	VT_ASSERT(DLC.disassemblies.elements_length == 0, "nothing is disassembled without being asked for");
	n = vt_bcn;
	VT_ASSERT(n <= sizeof plain, "programs are small");
	memcpy(plain, vt_bc, n);
	vt_free_bc();
	close_compiler();
	open_compiler(strip, 1);
	VT_ASSERT(!vt_compile(), "the program compiles");
	VT_ASSERT(n == vt_bcn && !memcmp(plain, vt_bc, n), "disassembling changes nothing");
	VT_ASSERT(DLC.disassemblies.elements_length > 0, "the program is disassembled");
	for (dl_size_t k = 0; k < DLC.disassemblies.elements_length; k++) {
		VT_ASSERT(!dl_array_get(&DLC.disassemblies, &string, (dl_ptrdiff_t) k), "disassemblies can be read");
		open_text(&string);
		if (k == DLC.disassemblies.elements_length - 1) check(vt_bc, vt_bcn);
		else check_text();
	}
	disassemblies = DLC.disassemblies.elements_length;
	vt_free_bc();
	close_compiler();
}

/* @q configs=default,inference,no-optimize max=200 reach=end | 29 programs of all kinds, with macros and compile-time code, with and without symbol names */
void h_programs(void) {
	int strip = (int) vt_pick(2);
	unsigned long k = vt_pick(NPROGRAMS);
	P(programs[k]);
	open_rows();
	compile_both(strip);
	dl_size_t before = 0;      /* macros and pieces of compile-time code */
	for (const char *p = programs[k]; *p; p++) if (!strncmp(p, "(__defmacro", 11)) before += 2; else if (!strncmp(p, "(__comptime", 11)) before++;   /* each macro is called once */
	VT_ASSERT(disassemblies == before + 1, "everything that is compiled is disassembled");
	VT_REACH("end");
}

/* @q configs=default,no-optimize max=200 reach=end | texts with an arbitrary string of 0 to 2 bytes, an arbitrary 32-bit Integer or an arbitrary symbol of one letter */
void h_literals(void) {
	open_rows();
	switch (vt_pick(3)) {
	case 0: {
		unsigned long m = vt_pick(3);
		P("\"");
		for (unsigned long k = 0; k < m; k++) {
			dl_uint8_t c = (dl_uint8_t) vt_draw();
			VT_ASSUME(c != '"' && c != '\\');
			vt_src[vt_n++] = (char) c;
		}
		P("\"");
		break;
	}
	case 1: {
		static const char *const numbers[] = {"0", "127", "128", "-128", "-129", "32767", "32768", "-32768", "-32769", "2147483647", "-2147483648"};
		P(numbers[vt_pick(11)]);
		break;
	}
	default: {
		dl_uint8_t c = (dl_uint8_t) vt_draw();
		VT_ASSUME(c >= 'a' && c <= 'z');
		P("(__quote ");
		vt_src[vt_n++] = (char) c;
		P(")");
	}
	}
	compile_both((int) vt_pick(2));
	VT_REACH("end");
}

/* @q configs=default max=200 reach=end | 8 of the programs behind 260 variables, and with code of 150 statements in a branch: operands of 16 bits */
void h_wide(void) {
	static const int which[] = {13, 15, 16, 17, 18, 20, 21, 23};
	open_rows();
	if (vt_pick(2)) {
		P("(");
		for (int k = 0; k < 260; k++) { P("(__var v"); vt_src[vt_n++] = 'a' + k / 26; vt_src[vt_n++] = 'a' + k % 26; P(" (in0)) "); }
		P("(__setq g (__lambda () (__+ vaa vjz)))");
		P(programs[which[vt_pick(8)]]);
		P(")");
	}
	else {
		P("(__if (in0) (");
		for (int k = 0; k < 150; k++) P("(out (in0)) ");
		P(programs[which[vt_pick(8)]]);
		P(") 1)");
	}
	compile_both(0);
	VT_REACH("end");
}
