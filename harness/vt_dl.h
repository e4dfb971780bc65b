/* A compiler + VM pair driven through the public API, source text built from pieces, and host callbacks (in0) .. (in7)
   that hand arbitrary (symbolic) values to the running program. */
#ifndef VT_DL_H
#define VT_DL_H
#include "vt.h"
#include "duckLisp.h"
#include "duckVM.h"
#include <stdlib.h>
#include <string.h>
#ifdef VT_NATIVE
#include <stdio.h>
#endif

#ifndef VT_ARENA
#define VT_ARENA (1 << 20)
#endif
#ifndef VT_MAXOBJ
#define VT_MAXOBJ 256
#endif

extern long vt_live, vt_allocs, vt_fail_at, vt_failed;

typedef struct { int t; long i; double f; } V;      /* t: duckVM_object_type_t; i: integer/boolean/symbol id; f: float */
static V vI(long i) { V v; v.t = duckVM_object_type_integer; v.i = i; v.f = 0; return v; }
static V vF(double f) { V v; v.t = duckVM_object_type_float; v.i = 0; v.f = f; return v; }
static V vB(int b) { V v; v.t = duckVM_object_type_bool; v.i = b; v.f = 0; return v; }
static V vN(void) { V v; v.t = duckVM_object_type_list; v.i = 0; v.f = 0; return v; }
/* nil, or an arbitrary value of one of the first n scalar types (integer, boolean, float, nil) */
static V vt_value(unsigned long n) {
	switch (vt_pick(n)) {
	case 0: return vI((long) vt_draw());
	case 1: return vB(vt_pick(2));
	case 2: return vF(vt_double());
	default: return vN();
	}
}

static dl_memoryAllocation_t MA;
static duckLisp_t DLC;
static duckVM_t VM;
static void *ARENA;
static V vt_inputs[10];

static dl_error_t vt_push(duckVM_t *vm, V v) {
	dl_error_t e;
	if (v.t == duckVM_object_type_integer) { e = duckVM_pushInteger(vm); return e ? e : duckVM_setInteger(vm, v.i); }
	if (v.t == duckVM_object_type_bool) { e = duckVM_pushBoolean(vm); return e ? e : duckVM_setBoolean(vm, v.i); }
	if (v.t == duckVM_object_type_float) { e = duckVM_pushFloat(vm); return e ? e : duckVM_setFloat(vm, v.f); }
	return duckVM_pushNil(vm);
}
/* The object on top of the stack; t = 0 if it cannot be read. */
static V vt_top(duckVM_t *vm) {
	V v; duckVM_object_type_t t; dl_bool_t b = 0; dl_ptrdiff_t i = 0; double f = 0; dl_size_t id = 0;
	v.t = 0; v.i = 0; v.f = 0;
	if (duckVM_typeOf(vm, &t)) return v;
	v.t = t;
	if (t == duckVM_object_type_integer) { if (duckVM_copySignedInteger(vm, &i)) v.t = 0; v.i = i; }
	else if (t == duckVM_object_type_bool) { if (duckVM_copyBoolean(vm, &b)) v.t = 0; v.i = b; }
	else if (t == duckVM_object_type_float) { if (duckVM_copyFloat(vm, &f)) v.t = 0; v.f = f; }
	else if (t == duckVM_object_type_symbol) { if (duckVM_copySymbolId(vm, &id)) v.t = 0; v.i = (long) id; }
	else if (t == duckVM_object_type_list) { if (duckVM_isNil(vm, &b)) v.t = 0; v.i = !b; }
	return v;
}
static int vt_same(V a, V b) {
	if (a.t != b.t) return 0;
	if (a.t == duckVM_object_type_float) return vt_dbits(a.f) == vt_dbits(b.f) || (a.f != a.f && b.f != b.f);
	return a.i == b.i;
}

#define VT_CB(n) static dl_error_t vt_cb##n(duckVM_t *vm) { return vt_push(vm, vt_inputs[n]); }
VT_CB(0) VT_CB(1) VT_CB(2) VT_CB(3) VT_CB(4) VT_CB(5) VT_CB(6) VT_CB(7) VT_CB(8) VT_CB(9)

/* Reference arithmetic. */
static int vt_isnum(V v) { return v.t == duckVM_object_type_integer || v.t == duckVM_object_type_bool || v.t == duckVM_object_type_float; }
static double vt_dbl(V v) { return v.t == duckVM_object_type_float ? v.f : v.t == duckVM_object_type_bool ? (dl_bool_t) v.i : v.i; }
static V vt_arith(int op, V a, V b) {
	if (a.t == duckVM_object_type_float || b.t == duckVM_object_type_float) {
		double x = vt_dbl(a), y = vt_dbl(b);
		return vF(op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y);
	}
	if (op == 3) return vI(b.i == -1 ? (long) -(unsigned long) a.i : a.i / b.i);
	return vI(op == 0 ? a.i + b.i : op == 1 ? a.i - b.i : a.i * b.i);
}

typedef dl_error_t (*vt_callback)(duckVM_t *);

/* (out x) records its argument. */
#ifndef VT_OUTS
#define VT_OUTS 32
#endif
static V vt_out[VT_OUTS];
static int vt_nout;
static dl_error_t vt_cb_out(duckVM_t *vm) {
	VT_ASSERT(vt_nout < VT_OUTS, "few outputs");
	vt_out[vt_nout] = vt_top(vm);
	vt_nout++;
	dl_error_t e = duckVM_pop(vm);
	return e ? e : duckVM_pushNil(vm);
}
static dl_error_t vt_link(const char *name, vt_callback cb, const char *type) {
	dl_size_t n = 0, m = 0; dl_error_t e;
	while (name[n]) n++;
	while (type[m]) m++;
	e = duckLisp_linkCFunction(&DLC, cb, (dl_uint8_t *) name, n
#ifdef USE_PARENTHESIS_INFERENCE
	                           , (dl_uint8_t *) type, m
#endif
	                           );
	if (e) return e;
	dl_ptrdiff_t id = duckLisp_symbol_nameToValue(&DLC, (dl_uint8_t *) name, n);
	if (id == -1) return dl_error_invalidValue;
	return duckVM_linkCFunction(&VM, id, cb);
}

static dl_error_t vt_vm_open(dl_size_t max_objects) { return duckVM_init(&VM, &MA, max_objects); }
static void vt_memory(void) {
	memset(&MA, 0, sizeof MA);
#ifdef USE_DUCKLIB_MALLOC
	ARENA = malloc(VT_ARENA);
	VT_ASSERT(!dl_memory_init(&MA, ARENA, VT_ARENA, dl_memoryFit_best), "allocator starts");
#endif
}
static dl_error_t vt_dl_open(dl_size_t max_objects) {
	return duckLisp_init(&DLC, &MA, max_objects
#ifdef USE_PARENTHESIS_INFERENCE
	                     , max_objects
#endif
	                     );
}
/* Compiler and VM, with callbacks (in0) .. (in{n-1}). */
static void vt_open_n(int n, dl_size_t max_objects) {
	static const char *const names[] = {"in0", "in1", "in2", "in3", "in4", "in5", "in6", "in7", "in8", "in9"};
	static const vt_callback cbs[] = {vt_cb0, vt_cb1, vt_cb2, vt_cb3, vt_cb4, vt_cb5, vt_cb6, vt_cb7, vt_cb8, vt_cb9};
	vt_memory();
	memset(&DLC, 0, sizeof DLC);
	memset(&VM, 0, sizeof VM);
	VT_ASSERT(!vt_dl_open(VT_MAXOBJ), "compiler starts");
	VT_ASSERT(!vt_vm_open(max_objects), "VM starts");
	for (int i = 0; i < n; i++) VT_ASSERT(!vt_link(names[i], cbs[i], "()"), "callback links");
}
static void vt_open_out(void) { VT_ASSERT(!vt_link("out", vt_cb_out, "(I)"), "callback links"); vt_nout = 0; }
static void vt_open(int n) { vt_open_n(n, VT_MAXOBJ); }

/* Program text. */
#ifndef VT_SRCMAX
#define VT_SRCMAX 4096
#endif
static char vt_src[VT_SRCMAX];
static int vt_n;
static void P(const char *s) { while (*s) vt_src[vt_n++] = *s++; }
static void PC(int c) { vt_src[vt_n++] = (char) c; }
static void PU(unsigned long v) { char b[24]; int k = 0; do { b[k++] = '0' + v % 10; v /= 10; } while (v); while (k) vt_src[vt_n++] = b[--k]; }
static void PI(long v) { if (v < 0) { PC('-'); PU(-(unsigned long) v); } else PU(v); }

static dl_uint8_t *vt_bc;
static dl_size_t vt_bcn;
static dl_error_t vt_compile(void) {
	vt_bc = NULL; vt_bcn = 0;
#ifdef VT_NATIVE
	if (getenv("VT_SHOW")) printf("VT-SRC %.*s\n", vt_n, vt_src), fflush(stdout);
#endif
	return duckLisp_loadString(&DLC,
#ifdef USE_PARENTHESIS_INFERENCE
	                           dl_false,
#endif
	                           &vt_bc, &vt_bcn, (dl_uint8_t *) vt_src, vt_n, (dl_uint8_t *) "t", 1);
}
static void vt_free_bc(void) { if (vt_bc) VT_ASSERT(!DL_FREE(&MA, &vt_bc), "bytecode can be freed"); vt_bc = NULL; }
/* Compiles and executes the text built so far; the result is left on the VM's stack. */
static dl_error_t vt_run(void) {
	dl_error_t e = vt_compile();
	if (!e) e = duckVM_execute(&VM, vt_bc, vt_bcn);
	if (vt_bc) vt_free_bc();
	vt_n = 0;
	return e;
}
static dl_error_t vt_do(const char *s) { vt_n = 0; P(s); return vt_run(); }
/* The value of a program that must compile, execute and leave its value on top of the stack; empties the stack. */
static V vt_value_of(const char *s) {
	dl_size_t before = duckVM_stackLength(&VM);
	dl_error_t e;
	if (s) { vt_n = 0; P(s); }
	e = vt_compile();
	VT_ASSERT(!e, "the program compiles");
	e = duckVM_execute(&VM, vt_bc, vt_bcn);
	vt_free_bc();
	vt_n = 0;
	VT_ASSERT(!e, "the program executes");
	VT_ASSERT(duckVM_stackLength(&VM) > before, "a value is returned");
	V v = vt_top(&VM);
	VT_OBSERVE(v.t);
	VT_OBSERVE(v.i);
	VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
	return v;
}
static void vt_close(void) {
	duckVM_quit(&VM);
	duckLisp_quit(&DLC);
#ifdef USE_DUCKLIB_MALLOC
	free(ARENA);
#else
	VT_ASSERT(vt_live == 0, "everything is freed at quit");
#endif
}
#endif
