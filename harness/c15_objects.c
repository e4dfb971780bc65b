/* The advanced C API: objects made by hand, and captured variables seen from the host. */
#define VT_OUTS 16
#include "vt_dl.h"
#define OK(c) VT_ASSERT(!(c), "the operation succeeds")
static dl_error_t native(duckVM_t *vm) { return duckVM_pushNil(vm); }
static void is_int(dl_ptrdiff_t want) { dl_ptrdiff_t i = 0; OK(duckVM_copySignedInteger(&VM, &i)); VT_ASSERT(i == want, "the integer is right"); }

/* @q configs=default,inference max=60 reach=end | each maker of objects with arbitrary values (booleans, Integers, Floats, strings and names of 0 to 3 arbitrary bytes, lists of 2 objects), pushed, popped, pushed again, with a collection in between */
void h_objects(void) {
	vt_memory();
	memset(&VM, 0, sizeof VM);
	OK(vt_vm_open(16));
	duckVM_object_t o, p; dl_bool_t b = 2; double f = 0, g = vt_double(); dl_size_t id = 0, n = 0; dl_uint8_t *s = NULL, bytes[3], copy[3];
	unsigned long v = vt_draw(), len = vt_pick(4), kind = vt_pick(7);
	for (int k = 0; k < 3; k++) bytes[k] = copy[k] = vt_byte();
	OK(duckVM_pushInteger(&VM)); OK(duckVM_setInteger(&VM, 77));
	switch (kind) {
	case 0: o = duckVM_object_makeBoolean((dl_bool_t) (v & 1)); break;
	case 1: o = duckVM_object_makeInteger((dl_ptrdiff_t) v); break;
	case 2: o = duckVM_object_makeFloat(g); break;
	case 3: OK(duckVM_object_makeString(&VM, &o, bytes, len)); break;
	case 4: OK(duckVM_object_makeSymbol(&VM, &o, v, bytes, len)); break;
	case 5: duckVM_object_makeCompressedSymbol(&o, v); break;
	default: {
		duckVM_object_t *a = NULL, *c = NULL;
		OK(duckVM_allocateHeapObject(&VM, &a, duckVM_object_makeInteger((dl_ptrdiff_t) v)));
		o = duckVM_object_makeList(NULL);
		OK(duckVM_object_push(&VM, &o));
		OK(duckVM_object_pop(&VM, &o));
		duckVM_object_t inner = duckVM_object_makeCons(a, NULL);
		OK(duckVM_allocateHeapObject(&VM, &c, inner));
		o = duckVM_object_makeList(c);
	} }
	OK(duckVM_object_push(&VM, &o));
	for (int k = 0; k < 3; k++) bytes[k] = 0;
	unsigned long times = vt_pick(3);
	for (unsigned long k = 0; k < times; k++) {
		memset(&p, 0, sizeof p);
		OK(duckVM_object_pop(&VM, &p));
		VT_ASSERT(duckVM_stackLength(&VM) == 1, "the object is popped");
		is_int(77);
		OK(duckVM_object_push(&VM, &p));
	}
	OK(duckVM_garbageCollect(&VM));
	switch (kind) {
	case 0: OK(duckVM_copyBoolean(&VM, &b)); VT_ASSERT(b == (v & 1), "the boolean is right"); break;
	case 1: is_int((dl_ptrdiff_t) v); break;
	case 2: OK(duckVM_copyFloat(&VM, &f)); VT_ASSERT(vt_dbits(f) == vt_dbits(g), "the float is right"); break;
	case 3: OK(duckVM_copyString(&VM, &s, &n)); VT_ASSERT(n == len, "the string has its length"); for (unsigned long k = 0; k < len; k++) VT_ASSERT(s[k] == copy[k], "the string has its bytes"); break;
	case 4: OK(duckVM_copySymbolId(&VM, &id)); VT_ASSERT(id == v, "the symbol has its number"); OK(duckVM_copySymbolName(&VM, &s, &n)); VT_ASSERT(n == len, "the name has its length"); for (unsigned long k = 0; k < len; k++) VT_ASSERT(s[k] == copy[k], "the name has its bytes"); break;
	case 5: OK(duckVM_copySymbolId(&VM, &id)); VT_ASSERT(id == v, "the symbol has its number"); break;
	default: OK(duckVM_isCons(&VM, &b)); VT_ASSERT(b == dl_true, "the list is a list"); OK(duckVM_length(&VM, &n)); VT_ASSERT(n == 1, "the list has its length"); OK(duckVM_pushCar(&VM)); is_int((dl_ptrdiff_t) v); OK(duckVM_pop(&VM)); OK(duckVM_pushCdr(&VM)); OK(duckVM_isNil(&VM, &b)); VT_ASSERT(b == dl_true, "the list ends"); OK(duckVM_pop(&VM)); break;
	}
	if (s) OK(DL_FREE(VM.memoryAllocation, &s));
	OK(duckVM_object_pop(&VM, &p));
	is_int(77);
	OK(duckVM_object_pop(&VM, &p));
	VT_ASSERT(p.type == duckVM_object_type_integer && p.value.integer == 77, "the popped object is right");
	VT_ASSERT(duckVM_object_pop(&VM, &p), "an empty stack cannot be popped");
	duckVM_quit(&VM);
#ifdef USE_DUCKLIB_MALLOC
	free(ARENA);
#else
	VT_ASSERT(vt_live == 0, "everything is freed at quit");
#endif
	(void) native;
	VT_REACH("end");
}

/* (poke f): reads the captured variables of f, sets the one that holds 20 to an arbitrary Integer, reads them again. */
static long got;
static dl_error_t cb_poke(duckVM_t *vm) {
	duckVM_object_t f, o, seen[3];
	duckVM_upvalueArray_t ups;
	OK(duckVM_object_pop(vm, &f));
	VT_ASSERT(f.type == duckVM_object_type_closure, "a function is given");
	OK(duckVM_closure_getUpvalueArray(f.value.closure, &ups));
	VT_ASSERT(ups.length == 3, "the function captures three variables");
	int at = -1, sum = 0;
	for (int k = 0; k < 3; k++) {
		OK(duckVM_upvalueArray_getUpvalue(vm, ups, &seen[k], k));
		VT_ASSERT(seen[k].type == duckVM_object_type_integer, "a captured variable has its value");
		if (seen[k].value.integer == 20) at = k;
		sum += (int) seen[k].value.integer;
	}
	VT_ASSERT(at >= 0 && sum == 10 + 20 + 30, "captured variables have their values");
	o = duckVM_object_makeInteger((dl_ptrdiff_t) vt_inputs[0].i);
	if (vt_pick(2)) OK(duckVM_closure_setUpvalue(vm, f.value.closure, &o, at)); else OK(duckVM_upvalueArray_setUpvalue(vm, ups, &o, at));
	for (int k = 0; k < 3; k++) {
		OK(duckVM_upvalueArray_getUpvalue(vm, ups, &o, k));
		VT_ASSERT(o.type == duckVM_object_type_integer && o.value.integer == (k == at ? vt_inputs[0].i : seen[k].value.integer), "exactly the captured variable is set");
	}
	long i = (long) vt_draw();
	VT_ASSUME(i < 0 || i >= 3);
	VT_ASSERT(duckVM_upvalueArray_getUpvalue(vm, ups, &o, i), "only captured variables can be read");
	VT_ASSERT(duckVM_upvalueArray_setUpvalue(vm, ups, &o, i) && duckVM_closure_setUpvalue(vm, f.value.closure, &o, i), "only captured variables can be set");
	got++;
	return duckVM_pushNil(vm);
}
/* @q configs=default,inference max=60 reach=end | a function that captured three variables which are on the stack, gone from it, or captured through another function, in three orders; one of them is set by the host to an arbitrary Integer; arbitrary wrong 64-bit indices */
void h_captured(void) {
	static const char *const orders[] = {"a b c", "b c a", "c a b"};
	static const char *const before[] = {"((__var a 10) (__var b 20) (__var c 30) (__var f (__lambda () (out (__list ", "((__var f ((__var a 10) (__var b 20) (__var c 30) (__lambda () (out (__list ", "((__var a 10) (__var b 20) (__var c 30) ((__var f (__funcall (__lambda () (__lambda () (out (__list ", "((__var f (__funcall (__lambda (a) (__var b 20) (__funcall (__lambda (c) (__lambda () (out (__list "};
	static const char *const middle[] = {")) (__+ a (__* 2 (__+ b c)))))", ")) (__+ a (__* 2 (__+ b c))))))", ")) (__+ a (__* 2 (__+ b c)))))))", ")) (__+ a (__* 2 (__+ b c))))) 30)) 10))"};
	vt_open(1);
	vt_open_out();
	vt_inputs[0] = vI((long) vt_draw());
	VT_ASSERT(!vt_link("poke", cb_poke, "(I)"), "callback links");
	got = 0;
	unsigned long how = vt_pick(4);
	vt_n = 0;
	P(before[how]); P(orders[vt_pick(3)]); P(middle[how]);
	P(" (poke f) (out (__funcall f))");
	if (how == 0) P(" (out b) (__setq b 5) (out (__funcall f)) 0)");
	else if (how == 2) P(" (out b) (__setq b 5) (out (__funcall f)) 0) 0)");
	else P(" 0)");
	VT_ASSERT(!vt_run(), "the program executes");
	VT_ASSERT(got == 1 && vt_nout == (how == 0 || how == 2 ? 5 : 2), "the program runs");
	VT_ASSERT(vt_same(vt_out[1], vI((long) (70 + 2 * (unsigned long) vt_inputs[0].i))), "the function sees what the host set");
	if (how == 0 || how == 2) {
		VT_ASSERT(vt_same(vt_out[2], vt_inputs[0]), "the variable has what the host set");
		VT_ASSERT(vt_same(vt_out[4], vI(80)), "the variable can still be assigned");
	}
	vt_close();
	VT_REACH("end");
}
