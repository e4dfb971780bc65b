/* The C API: every operation of a host program on the VM's stack does exactly what its description says, with a
   reference model of the stack and of the data structures in it. */
#include "vt_dl.h"
static void vm_open(dl_size_t n) { vt_memory(); memset(&VM, 0, sizeof VM); VT_ASSERT(!vt_vm_open(n), "VM starts"); }
static void vm_close(void) {
	duckVM_quit(&VM);
#ifdef USE_DUCKLIB_MALLOC
	free(ARENA);
#else
	VT_ASSERT(vt_live == 0, "everything is freed at quit");
#endif
}
#define OK(c) VT_ASSERT(!(c), "the operation succeeds")
#define BAD(c) VT_ASSERT(c, "the operation is refused")
static dl_error_t native(duckVM_t *vm) { return duckVM_pushNil(vm); }

/* The reference model: objects are values; conses and vectors are references to shared cells. */
enum { O_BOOL, O_INT, O_FLOAT, O_STR, O_SYM, O_TYPE, O_COMP, O_NIL, O_CONS, O_VEC, O_USER, O_FUN, O_N };
typedef struct { int k; unsigned long i; double f; int ref, off; } M;
static struct { M a, b; } cell[12];
static struct { M e[3]; unsigned long n; } vec[8];
static struct { unsigned long type; M v, f; } comp[4];
static struct { unsigned char c[4]; unsigned long n; } str[4];
static int ncell, nvec, ncomp, nstr;
static M stk[16];
static int sp;
static M m(int k, unsigned long i, int ref) { M x; x.k = k; x.i = i; x.f = 0; x.ref = ref; x.off = 0; return x; }
static M m_nil(void) { return m(O_NIL, 0, 0); }
static int user_data;

/* Reads the object on top of the stack through the API and compares it with the model, down to a depth. */
static void check_top(M x, int depth) {
	static const duckVM_object_type_t types[] = {
		duckVM_object_type_bool, duckVM_object_type_integer, duckVM_object_type_float, duckVM_object_type_string,
		duckVM_object_type_symbol, duckVM_object_type_type, duckVM_object_type_composite, duckVM_object_type_list,
		duckVM_object_type_list, duckVM_object_type_vector, duckVM_object_type_user, duckVM_object_type_function};
	duckVM_object_type_t t; dl_bool_t b = 2; dl_ptrdiff_t i; double f; dl_size_t u, n; dl_uint8_t *s = NULL;
	OK(duckVM_typeOf(&VM, &t));
	VT_ASSERT(t == types[x.k], "the object has the right type");
	dl_size_t height = duckVM_stackLength(&VM);
	switch (x.k) {
	case O_BOOL: OK(duckVM_copyBoolean(&VM, &b)); VT_ASSERT(b == x.i, "the boolean is right"); break;
	case O_INT: OK(duckVM_copySignedInteger(&VM, &i)); VT_ASSERT((unsigned long) i == x.i, "the integer is right");
		if (i >= 0) { OK(duckVM_copyUnsignedInteger(&VM, &u)); VT_ASSERT(u == x.i, "the unsigned integer is right"); }
		break;
	case O_FLOAT: OK(duckVM_copyFloat(&VM, &f)); VT_ASSERT(vt_dbits(f) == vt_dbits(x.f), "the float is right"); break;
	case O_STR:
		OK(duckVM_copyString(&VM, &s, &n));
		VT_ASSERT(n == str[x.ref].n - x.off, "the string has the right length");
		for (dl_size_t k = 0; k < n; k++) VT_ASSERT(s[k] == str[x.ref].c[x.off + k], "the string has the right bytes");
		if (s) OK(DL_FREE(VM.memoryAllocation, &s));
		OK(duckVM_length(&VM, &u)); VT_ASSERT(u == n, "the length of the string is right");
		OK(duckVM_isEmpty(&VM, &b)); VT_ASSERT(b == (n == 0), "only the empty string is empty");
		break;
	case O_SYM: OK(duckVM_copySymbolId(&VM, &u)); VT_ASSERT(u == x.i, "the symbol is right"); break;
	case O_TYPE: OK(duckVM_copyType(&VM, &u)); VT_ASSERT(u == x.i, "the type is right"); break;
	case O_COMP:
		OK(duckVM_copyCompositeType(&VM, &u)); VT_ASSERT(u == comp[x.ref].type, "the type of the composite is right");
		if (!depth) break;
		OK(duckVM_pushCompositeValue(&VM)); check_top(comp[x.ref].v, depth - 1); OK(duckVM_pop(&VM));
		OK(duckVM_pushCompositeFunction(&VM)); check_top(comp[x.ref].f, depth - 1); OK(duckVM_pop(&VM));
		break;
	case O_NIL:
		OK(duckVM_isNil(&VM, &b)); VT_ASSERT(b == dl_true, "nil is nil");
		OK(duckVM_isEmpty(&VM, &b)); VT_ASSERT(b == dl_true, "nil is empty");
		OK(duckVM_length(&VM, &u)); VT_ASSERT(u == 0, "nil has no elements");
		break;
	case O_CONS:
		OK(duckVM_isCons(&VM, &b)); VT_ASSERT(b == dl_true, "a cons is a cons");
		OK(duckVM_isEmpty(&VM, &b)); VT_ASSERT(b == dl_false, "a cons is not empty");
		if (!depth) break;
		OK(duckVM_pushCar(&VM)); check_top(cell[x.ref].a, depth - 1); OK(duckVM_pop(&VM));
		OK(duckVM_pushCdr(&VM)); check_top(cell[x.ref].b, depth - 1); OK(duckVM_pop(&VM));
		break;
	case O_VEC:
		OK(duckVM_length(&VM, &u)); VT_ASSERT(u == vec[x.ref].n - x.off, "the vector has the right length");
		OK(duckVM_isEmpty(&VM, &b)); VT_ASSERT(b == (vec[x.ref].n == (unsigned long) x.off), "only the empty vector is empty");
		if (!depth) break;
		for (unsigned long k = 0; k < vec[x.ref].n - x.off; k++) {
			OK(duckVM_pushElement(&VM, k)); check_top(vec[x.ref].e[x.off + k], depth - 1); OK(duckVM_pop(&VM));
		}
		break;
	}
	VT_ASSERT(duckVM_stackLength(&VM) == height, "the stack is balanced");
}
static void check_stack(int depth) {
	VT_ASSERT(duckVM_stackLength(&VM) == (dl_size_t) sp, "the stack has the right height");
	for (int k = 0; k < sp; k++) { OK(duckVM_push(&VM, k)); check_top(stk[k], depth); OK(duckVM_pop(&VM)); }
}
static M push_kind(int k) {
	M x = m(k, 0, 0);
	switch (k) {
	case O_BOOL: x.i = vt_pick(2); OK(duckVM_pushBoolean(&VM)); OK(duckVM_setBoolean(&VM, x.i)); break;
	case O_INT: x.i = vt_draw(); OK(duckVM_pushInteger(&VM)); OK(duckVM_setInteger(&VM, x.i)); break;
	case O_FLOAT: x.f = vt_double(); OK(duckVM_pushFloat(&VM)); OK(duckVM_setFloat(&VM, x.f)); break;
	case O_STR: {
		unsigned char b[4];
		x.ref = nstr++; str[x.ref].n = vt_pick(5);
		for (unsigned long j = 0; j < str[x.ref].n; j++) b[j] = str[x.ref].c[j] = vt_byte();
		OK(duckVM_pushString(&VM, b, str[x.ref].n));
		for (int j = 0; j < 4; j++) b[j] = 0;       /* the string is a copy */
		break;
	}
	case O_SYM: x.i = vt_draw(); if (vt_pick(2)) OK(duckVM_pushSymbol(&VM, x.i, (dl_uint8_t *) "name", 4)); else OK(duckVM_pushCompressedSymbol(&VM, x.i)); break;
	case O_TYPE: x.i = vt_draw(); OK(duckVM_pushExistingType(&VM, x.i)); break;
	case O_COMP: x.ref = ncomp++; comp[x.ref].type = vt_draw(); comp[x.ref].v = comp[x.ref].f = m_nil(); OK(duckVM_pushComposite(&VM, comp[x.ref].type)); break;
	case O_NIL: OK(duckVM_pushNil(&VM)); break;
	case O_CONS: x.ref = ncell++; cell[x.ref].a = cell[x.ref].b = m_nil(); OK(duckVM_pushCons(&VM)); break;
	case O_VEC: x.ref = nvec++; vec[x.ref].n = vt_pick(4); for (int j = 0; j < 3; j++) vec[x.ref].e[j] = m_nil(); OK(duckVM_pushVector(&VM, vec[x.ref].n)); break;
	case O_USER: { duckVM_object_t o = duckVM_object_makeUser(&user_data, NULL, NULL); OK(duckVM_object_push(&VM, &o)); break; }
	case O_FUN: OK(duckVM_linkCFunction(&VM, 3, native)); OK(duckVM_pushGlobal(&VM, 3)); break;
	}
	stk[sp++] = x;
	return x;
}

/* Every kind of object: what was pushed is read back, exactly the right predicates hold, and the operations of other kinds are refused without effect. */
/* @q configs=default,inference,portable max=60 reach=end | an object of each of the 12 kinds with an arbitrary value (strings and vectors of 0..4 and 0..3 elements) above an arbitrary integer; every predicate and every typed read and write */
void h_kinds(void) {
	vm_open(64);
	push_kind(O_INT);
	int k = (int) vt_pick(O_N);
	push_kind(k);
	check_stack(2);
	dl_bool_t b; dl_ptrdiff_t i = 0; double f = 0; dl_size_t u = 0, n = 0; dl_uint8_t *s = NULL;
	#define IS(what, cond) OK(duckVM_is##what(&VM, &b)); VT_ASSERT(b == (cond), "is" #what " is right")
	IS(None, 0); IS(Boolean, k == O_BOOL); IS(Integer, k == O_INT); IS(Float, k == O_FLOAT); IS(String, k == O_STR);
	IS(Symbol, k == O_SYM); IS(Type, k == O_TYPE); IS(Composite, k == O_COMP); IS(List, k == O_NIL || k == O_CONS);
	IS(Nil, k == O_NIL); IS(Cons, k == O_CONS); IS(Vector, k == O_VEC); IS(Closure, 0); IS(User, k == O_USER);
	if (k != O_BOOL) { BAD(duckVM_copyBoolean(&VM, &b)); BAD(duckVM_setBoolean(&VM, vt_pick(2))); }
	if (k != O_INT) { BAD(duckVM_copySignedInteger(&VM, &i)); BAD(duckVM_copyUnsignedInteger(&VM, &u)); BAD(duckVM_setInteger(&VM, vt_draw())); }
	if (k != O_FLOAT) { BAD(duckVM_copyFloat(&VM, &f)); BAD(duckVM_setFloat(&VM, vt_double())); }
	if (k != O_STR) BAD(duckVM_copyString(&VM, &s, &n));
	if (k != O_SYM) { BAD(duckVM_copySymbolId(&VM, &u)); BAD(duckVM_copySymbolName(&VM, &s, &n)); }
	if (k != O_TYPE) BAD(duckVM_copyType(&VM, &u));
	if (k != O_COMP) {
		BAD(duckVM_copyCompositeType(&VM, &u)); BAD(duckVM_pushCompositeValue(&VM)); BAD(duckVM_pushCompositeFunction(&VM));
		BAD(duckVM_setCompositeValue(&VM, -1)); BAD(duckVM_setCompositeFunction(&VM, -1));
	}
	{ dl_uint8_t a; BAD(duckVM_copyClosureName(&VM, &i)); BAD(duckVM_copyClosureArity(&VM, &a)); BAD(duckVM_copyClosureIsVariadic(&VM, &b)); BAD(duckVM_pushClosureBytecode(&VM)); }
	if (k != O_STR && k != O_NIL && k != O_CONS && k != O_VEC) {
		BAD(duckVM_pushCar(&VM)); BAD(duckVM_pushFirst(&VM)); BAD(duckVM_pushCdr(&VM)); BAD(duckVM_pushRest(&VM));
		BAD(duckVM_pushElement(&VM, 0)); BAD(duckVM_setElement(&VM, 0, -1)); BAD(duckVM_length(&VM, &u));
	}
	if (k != O_CONS) { BAD(duckVM_setCdr(&VM, -1)); BAD(duckVM_setRest(&VM, -1)); }
	if (k != O_CONS && (k != O_VEC || !vec[0].n)) { BAD(duckVM_setCar(&VM, -1)); BAD(duckVM_setFirst(&VM, -1)); }
	if (k != O_FUN) BAD(duckVM_call(&VM, -1, 0));
	check_stack(2);
	OK(duckVM_pop(&VM)); sp--;
	check_stack(2);
	VT_REACH("end");
	vm_close();
}

/* The stack operations, with arbitrary indices. */
#ifndef OPS
#define OPS 2
#endif
static long index_of(long i) { return i < 0 ? i + sp : i; }
/* @q configs=default,inference max=60 tmax=300 tdefs=OPS=3 reach=end,refused,top,below,three | two (thorough: three) operations on a stack of 0..3 arbitrary integers, with arbitrary 64-bit stack indices and counts; then the whole stack is compared */
void h_stack(void) {
	vm_open(16);
	unsigned long n = vt_pick(4);
	for (unsigned long k = 0; k < n; k++) push_kind(O_INT);
	for (int k = 0; k < OPS; k++) {
		long i = (long) vt_draw(), r = index_of(i);
		int valid = r >= 0 && r < sp;
		switch (vt_pick(5)) {
		case 0:
			if (duckVM_push(&VM, i)) { VT_ASSERT(!valid, "only wrong indices are refused"); VT_REACH("refused"); }
			else {
				VT_ASSERT(valid, "wrong indices are refused");
				for (int j = 0; j < sp; j++) if (j == r) { stk[sp] = stk[j]; if (j == sp - 1) VT_REACH("top"); else VT_REACH("below"); break; }
				sp++;
			}
			break;
		case 1:
			if (duckVM_copyFromTop(&VM, i)) VT_ASSERT(!valid, "only wrong indices are refused");
			else { VT_ASSERT(valid, "wrong indices are refused"); for (int j = 0; j < sp; j++) if (j == r) { stk[j] = stk[sp - 1]; break; } }
			break;
		case 2:
			if (duckVM_pop(&VM)) VT_ASSERT(sp == 0, "only an empty stack cannot be popped");
			else { VT_ASSERT(sp > 0, "an empty stack cannot be popped"); sp--; }
			break;
		case 3:
			if (duckVM_popSeveral(&VM, (dl_size_t) i)) VT_ASSERT((dl_size_t) i > (dl_size_t) sp, "only too many objects cannot be popped");
			else { VT_ASSERT((dl_size_t) i <= (dl_size_t) sp, "no more objects are popped than there are"); for (int j = 0; j <= sp; j++) if (j == i) { sp -= j; if (j == 3) VT_REACH("three"); break; } }
			break;
		case 4: push_kind(O_INT); break;
		}
		VT_ASSERT(duckVM_stackLength(&VM) == (dl_size_t) sp, "the stack has the right height");
	}
	check_stack(1);
	if (vt_pick(2)) OK(duckVM_popAll(&VM)); else OK(duckVM_softReset(&VM));
	VT_ASSERT(duckVM_stackLength(&VM) == 0, "the stack is empty");
	VT_ASSERT(duckVM_pop(&VM), "an empty stack cannot be popped");
	{ dl_ptrdiff_t i; duckVM_object_type_t t; BAD(duckVM_copySignedInteger(&VM, &i)); BAD(duckVM_typeOf(&VM, &t)); BAD(duckVM_pushCar(&VM)); BAD(duckVM_setCar(&VM, 0)); BAD(duckVM_setGlobal(&VM, 1)); BAD(duckVM_copyFromTop(&VM, 0)); BAD(duckVM_call(&VM, 0, 0)); }
	VT_REACH("end");
	vm_close();
}

/* Strings: first, rest and elements of a string and of views of it. */
/* @q configs=default,inference,portable max=60 reach=end,in,out | a string of 0..4 arbitrary bytes, 0..3 rests of it, an arbitrary 64-bit element index */
void h_string(void) {
	vm_open(16);
	M x = push_kind(O_STR);
	unsigned long rests = vt_pick(4);
	for (unsigned long k = 0; k < rests; k++) {
		dl_error_t e = vt_pick(2) ? duckVM_pushCdr(&VM) : duckVM_pushRest(&VM);
		if ((unsigned long) x.off < str[x.ref].n) { OK(e); x.off++; stk[sp++] = x; } else { BAD(e); check_stack(1); VT_ASSUME(0); }
	}
	check_stack(1);
	unsigned long n = str[x.ref].n - x.off, i = vt_draw();
	if (duckVM_pushElement(&VM, (dl_ptrdiff_t) i)) { VT_ASSERT(i >= n, "only elements that do not exist are refused"); VT_REACH("out"); }
	else {
		VT_ASSERT(i < n, "elements that do not exist are refused");
		for (unsigned long j = 0; j < n; j++) if (j == i) { stk[sp++] = m(O_INT, str[x.ref].c[x.off + j], 0); break; }
		check_stack(1);
		OK(duckVM_pop(&VM)); sp--;
		VT_REACH("in");
	}
	dl_error_t e = vt_pick(2) ? duckVM_pushCar(&VM) : duckVM_pushFirst(&VM);
	if (n) { OK(e); stk[sp++] = m(O_INT, str[x.ref].c[x.off], 0); } else BAD(e);
	OK(duckVM_garbageCollect(&VM));
	check_stack(1);
	VT_REACH("end");
	vm_close();
}

/* Symbols and types. */
/* @q configs=default,inference,portable max=60 reach=end,compressed | a symbol with an arbitrary number and a name of 0..3 arbitrary bytes or without a name; an arbitrary type and three new types */
void h_symbol(void) {
	vm_open(16);
	unsigned char name[3]; unsigned long id = vt_draw(), n = vt_pick(4); dl_size_t u = 9, v = 9, w = 9; dl_uint8_t *s = (dl_uint8_t *) name;
	for (unsigned long k = 0; k < 3; k++) name[k] = vt_byte();
	int compressed = (int) vt_pick(2);
	if (compressed) OK(duckVM_pushCompressedSymbol(&VM, id)); else OK(duckVM_pushSymbol(&VM, id, name, n));
	OK(duckVM_garbageCollect(&VM));
	OK(duckVM_copySymbolId(&VM, &u));
	VT_ASSERT(u == id, "the number of the symbol is right");
	OK(duckVM_copySymbolName(&VM, &s, &u));
	VT_ASSERT(u == (compressed ? 0 : n), "the length of the name is right");
	if (compressed) { VT_ASSERT(s == NULL, "there is no name"); VT_REACH("compressed"); }
	else {
		for (unsigned long k = 0; k < n; k++) VT_ASSERT(s[k] == name[k], "the name is right");
		if (s) OK(DL_FREE(VM.memoryAllocation, &s));
	}
	OK(duckVM_pushNewType(&VM)); OK(duckVM_copyType(&VM, &u));
	OK(duckVM_pushNewType(&VM)); OK(duckVM_copyType(&VM, &v));
	OK(duckVM_pop(&VM));
	OK(duckVM_pushNewType(&VM)); OK(duckVM_copyType(&VM, &w));
	VT_ASSERT(u != v && u != w && v != w, "new types are new");
	VT_ASSERT(u >= duckVM_object_type_last && v >= duckVM_object_type_last && w >= duckVM_object_type_last, "new types are no built-in types");
	VT_ASSERT(duckVM_stackLength(&VM) == 3, "the stack has the right height");
	VT_REACH("end");
	vm_close();
}

/* Composites: the parts of a composite, seen through every copy of it. */
/* @q configs=default,inference max=60 reach=end | a composite of an arbitrary type and two copies of it; its value and its function set to arbitrary integers through copies at positive and negative indices, with collections in between on a heap of 8 objects */
void h_composite(void) {
	vm_open(8);
	push_kind(O_INT);
	M c = push_kind(O_COMP);
	OK(duckVM_push(&VM, -1)); stk[sp++] = c;
	check_stack(2);
	for (int k = 0; k < 3; k++) {
		M x = push_kind(O_INT);
		int where = 1 + (int) vt_pick(2);
		long i = vt_pick(2) ? where : where - sp;
		if (vt_pick(2)) { OK(duckVM_setCompositeValue(&VM, i)); comp[c.ref].v = x; }
		else { OK(duckVM_setCompositeFunction(&VM, i)); comp[c.ref].f = x; }
		if (vt_pick(2)) OK(duckVM_garbageCollect(&VM));
		OK(duckVM_pop(&VM)); sp--;
	}
	BAD(duckVM_setCompositeValue(&VM, 0)); BAD(duckVM_setCompositeFunction(&VM, 0));
	BAD(duckVM_setCompositeValue(&VM, sp)); BAD(duckVM_setCompositeFunction(&VM, -sp - 1));
	check_stack(2);
	VT_REACH("end");
	vm_close();
}

/* Conses, lists and vectors: a history of operations on a stack with shared structures against the model. */
static M *nth(int c, unsigned long i) { while (1) { if (!i--) return &cell[c].a; if (cell[c].b.k != O_CONS) return 0; c = cell[c].b.ref; } }
static int list_length(M x) { int n = 0; while (x.k == O_CONS) { if (++n > 12) return -1; x = cell[x.ref].b; } return n; }

/* Alternates between the two spellings of operations and of indices. */
static unsigned long flips;
static int flip(void) { return (int) (flips++ & 1); }
static void step(int op) {
	long r, i = 0;
	M t = stk[sp - 1], s; dl_error_t e; dl_size_t u; M *p;
	switch (op) {
	case 0: if (ncell < 12) push_kind(O_CONS); break;
	case 1: if (nvec < 8) push_kind(O_VEC); break;
	case 2: push_kind(O_INT); break;
	case 3: push_kind(O_NIL); break;
	case 4: r = (long) vt_pick(sp); OK(duckVM_push(&VM, flip() ? r : r - sp)); s = stk[r]; stk[sp++] = s; break;
	case 5: if (sp > 1) { OK(duckVM_pop(&VM)); sp--; } break;
	case 6:
		e = flip() ? duckVM_pushCar(&VM) : duckVM_pushFirst(&VM);
		if (t.k == O_NIL) { OK(e); stk[sp++] = m_nil(); }
		else if (t.k == O_CONS) { OK(e); stk[sp++] = cell[t.ref].a; }
		else if (t.k == O_VEC && (unsigned long) t.off < vec[t.ref].n) { OK(e); stk[sp++] = vec[t.ref].e[t.off]; }
		else BAD(e);
		break;
	case 7:
		e = flip() ? duckVM_pushCdr(&VM) : duckVM_pushRest(&VM);
		if (t.k == O_NIL) { OK(e); stk[sp++] = m_nil(); }
		else if (t.k == O_CONS) { OK(e); stk[sp++] = cell[t.ref].b; }
		else if (t.k == O_VEC && (unsigned long) t.off < vec[t.ref].n) { OK(e); t.off++; stk[sp++] = t; }
		else BAD(e);
		break;
	case 8: case 9: case 10:
		r = (long) vt_pick(sp); s = stk[r];
		if (op == 10) { i = vt_pick(5) - 1; }
		{ long index = flip() ? r : r - sp; int alias = flip();
		  e = op == 8 ? (alias ? duckVM_setCar(&VM, index) : duckVM_setFirst(&VM, index)) : op == 9 ? (alias ? duckVM_setCdr(&VM, index) : duckVM_setRest(&VM, index)) : duckVM_setElement(&VM, i, index); }
		if (op == 9) { if (s.k == O_CONS) { OK(e); cell[s.ref].b = t; } else BAD(e); break; }
		if (s.k == O_CONS) { p = i < 0 ? 0 : nth(s.ref, i); if (p) { OK(e); *p = t; } else BAD(e); }
		else if (s.k == O_VEC && i >= 0 && s.off + (unsigned long) i < vec[s.ref].n) { OK(e); vec[s.ref].e[s.off + i] = t; }
		else BAD(e);
		break;
	case 11:
		i = (long) vt_pick(5) - 1;
		e = duckVM_pushElement(&VM, i);
		if (t.k == O_CONS) { p = i < 0 ? 0 : nth(t.ref, i); if (p) { OK(e); s = *p; stk[sp++] = s; } else BAD(e); }
		else if (t.k == O_VEC && i >= 0 && t.off + (unsigned long) i < vec[t.ref].n) { OK(e); s = vec[t.ref].e[t.off + i]; stk[sp++] = s; }
		else BAD(e);
		break;
	case 12:
		u = 77;
		e = duckVM_length(&VM, &u);
		if (t.k == O_CONS) { int n = list_length(t); if (n < 0) BAD(e); else { OK(e); VT_ASSERT(u == (dl_size_t) n, "the length of the list is right"); } }
		else if (t.k == O_VEC) { OK(e); VT_ASSERT(u == vec[t.ref].n - t.off, "the length of the vector is right"); }
		else if (t.k == O_NIL) { OK(e); VT_ASSERT(u == 0, "nil has no elements"); }
		else BAD(e);
		break;
	case 13: OK(duckVM_garbageCollect(&VM)); break;
	}
	VT_ASSERT(duckVM_stackLength(&VM) == (dl_size_t) sp, "the stack has the right height");
}
#ifndef STEPS
#define STEPS 3
#endif
#ifndef DEPTH
#define DEPTH 3
#endif
static void structures(int start) {
	vm_open(64);
	flips = vt_pick(2);
	push_kind(O_INT);
	if (start == 0) { push_kind(O_CONS); push_kind(O_CONS); }
	else if (start == 1) {      /* a list (a b) below its second cons */
		push_kind(O_CONS); push_kind(O_INT);
		step(8); VT_ASSUME(cell[0].a.k == O_INT);
		push_kind(O_CONS);
		OK(duckVM_setCdr(&VM, 1)); cell[0].b = stk[sp - 1];
	}
	else { push_kind(O_VEC); VT_ASSUME(vec[0].n == 3); step(7); push_kind(O_CONS); }
	for (int k = 0; k < STEPS; k++) step((int) vt_pick(14));
	check_stack(DEPTH);
	VT_REACH("end");
	vm_close();
}
/* @q configs=default,inference max=100 tmax=600 defs=STEPS=2 tdefs=STEPS=3 reach=end | two fresh conses above an integer; 2 (thorough: 3) of 14 operations with all stack indices, element indices -1..3 and arbitrary integers; everything on the stack compared to depth 3 */
void h_conses(void) { structures(0); }
/* @q configs=default,inference tconfigs=default,inference,portable max=100 tmax=700 defs=STEPS=2 reach=end | a list of two elements and its second cons, as above with 2 operations */
void h_list(void) { structures(1); }
/* @q configs=default,inference tconfigs=default max=100 tmax=700 defs=STEPS=2 tdefs=STEPS=3 reach=end | a vector of three elements, its rest, and a cons, as above with 2 (thorough: 3) operations */
void h_vector(void) { structures(2); }

/* Globals: a map from arbitrary keys to values. */
/* @q configs=default,inference max=60 reach=end,same,missing | three definitions (values or callbacks) under arbitrary 64-bit keys, then a lookup of a fourth arbitrary key, with a collection in between */
void h_globals(void) {
	vm_open(16);
	long key[4]; M val[3]; int n = 3;
	for (int k = 0; k < 4; k++) key[k] = (long) vt_draw();
	for (int k = 0; k < n; k++) {
		if (vt_pick(3) == 0) { OK(duckVM_linkCFunction(&VM, key[k], native)); val[k] = m(O_FUN, 0, 0); continue; }
		val[k] = push_kind(O_INT);
		OK(duckVM_setGlobal(&VM, key[k]));
		OK(duckVM_setInteger(&VM, vt_draw()));      /* the global is a copy */
		OK(duckVM_pop(&VM)); sp--;
	}
	OK(duckVM_garbageCollect(&VM));
	int f = key[3] == key[2] ? 2 : key[3] == key[1] ? 1 : key[3] == key[0] ? 0 : -1;
	dl_error_t e = duckVM_pushGlobal(&VM, key[3]);
	if (f < 0) { BAD(e); VT_REACH("missing"); }
	else { OK(e); stk[sp++] = val[f]; check_top(val[f], 1); VT_REACH("same"); }
	VT_ASSERT(duckVM_stackLength(&VM) == (dl_size_t) sp, "the stack has the right height");
	VT_REACH("end");
	vm_close();
}

/* Calls: the arguments are replaced with the value; what is below them stays. */
static long seen; static int seen_n;
static dl_error_t cb_sub(duckVM_t *vm) {
	dl_ptrdiff_t a, b; dl_error_t e = duckVM_copySignedInteger(vm, &b);
	if (!e) e = duckVM_pop(vm);
	if (!e) e = duckVM_copySignedInteger(vm, &a);
	if (!e) e = duckVM_pop(vm);
	seen = a; seen_n++;
	if (!e) e = duckVM_pushInteger(vm);
	return e ? e : duckVM_setInteger(vm, (long) ((unsigned long) a - (unsigned long) b));
}
static void push_global(const char *name) {
	dl_size_t n = 0; while (name[n]) n++;
	OK(duckVM_pushGlobal(&VM, duckLisp_symbol_nameToValue(&DLC, (dl_uint8_t *) name, n)));
}
static void args(int n, long *v) { for (int k = 0; k < n; k++) { OK(duckVM_pushInteger(&VM)); OK(duckVM_setInteger(&VM, v[k])); } }
/* @q configs=default,inference tconfigs=default,inference,portable max=60 tmax=500 reach=end,right,wrong,deep | a closure, a variadic closure, a closure with a captured variable, a composite and a callback called with 0..4 arbitrary integers from a host program, with objects below, the function directly below the arguments or deeper, positive and negative index; twice in a row */
void h_call(void) {
	static const char *const name[] = {"f-fix", "f-rest", "f-cap", "f-comp", "f-cb"};
	dl_uint8_t arity; dl_bool_t variadic;
	vt_open_n(1, 64);
	VT_ASSERT(!vt_link("f-cb", cb_sub, "(I I)"), "callback links");
	vt_inputs[0] = vI((long) vt_draw());
	VT_ASSERT(!vt_do("((__global f-fix (__lambda (a b) (__list a b))) (__global f-rest (__lambda (a &rest r) (__vector a r 5)))"
	                 " ((__var k (in0)) (__global f-cap (__lambda (a b) (__setq k (__+ k (__- a b))) k)))"
	                 " (__global f-comp (__make-instance (__make-type) 0 (__lambda (a b) (__- a b)))))"), "the program runs");
	OK(duckVM_popAll(&VM));
	seen_n = 0;
	int f = (int) vt_pick(5), below = (int) vt_pick(3), n = (int) vt_pick(5);
	long v[4], r; M x; unsigned long k = (unsigned long) vt_inputs[0].i;
	for (int j = 0; j < 4; j++) v[j] = (long) vt_draw();
	if (f == 4) { VT_ASSUME(n == 2); }
	push_kind(O_INT);
	push_global(name[f]);
	if (f < 3) {
		OK(duckVM_copyClosureArity(&VM, &arity)); OK(duckVM_copyClosureIsVariadic(&VM, &variadic));
		VT_ASSERT(arity == (f == 1 ? 1 : 2) && variadic == (f == 1), "the arity is right");
		dl_bool_t b; OK(duckVM_isClosure(&VM, &b)); VT_ASSERT(b == dl_true, "a closure is a closure");
	}
	/* A closure may not be found by its type only: skip it in the model. */
	int at = sp; stk[sp++] = m(O_FUN, 0, 0);
	for (int j = 0; j < below; j++) { push_kind(O_INT); VT_REACH("deep"); }
	for (int round = 0; round < 2; round++) {
		if (round) { OK(duckVM_pop(&VM)); }
		args(n, v);
		dl_error_t e = duckVM_call(&VM, vt_pick(2) ? at : at - sp - n, (dl_uint8_t) n);
		if (f == 1 ? n < 1 : n != 2) { BAD(e); VT_REACH("wrong"); OK(duckVM_softReset(&VM)); VT_ASSERT(duckVM_stackLength(&VM) == 0, "the stack is empty"); vt_close(); return; }
		OK(e);
		VT_REACH("right");
		VT_ASSERT(duckVM_stackLength(&VM) == (dl_size_t) sp + 1, "the arguments are replaced with the value");
		ncell = nvec = 0;
		switch (f) {
		case 0: cell[0].a = m(O_INT, v[0], 0); cell[0].b = m(O_CONS, 0, 1); cell[1].a = m(O_INT, v[1], 0); cell[1].b = m_nil(); x = m(O_CONS, 0, 0); break;
		case 1:
			x = m(O_VEC, 0, 0); vec[0].n = 3; vec[0].e[0] = m(O_INT, v[0], 0); vec[0].e[2] = m(O_INT, 5, 0);
			vec[0].e[1] = n > 1 ? m(O_CONS, 0, 0) : m_nil();
			for (int j = 1; j < n; j++) { cell[j - 1].a = m(O_INT, v[j], 0); cell[j - 1].b = j + 1 < n ? m(O_CONS, 0, j) : m_nil(); }
			break;
		case 2: k += (unsigned long) v[0] - (unsigned long) v[1]; x = m(O_INT, k, 0); break;
		default: x = m(O_INT, (unsigned long) v[0] - (unsigned long) v[1], 0); break;
		}
		check_top(x, 4);
	}
	for (int j = 0; j < sp; j++) if (j != at) { OK(duckVM_push(&VM, j)); check_top(stk[j], 1); OK(duckVM_pop(&VM)); }
	VT_ASSERT(seen_n == (f == 4 ? 2 : 0), "callbacks are called once");
	VT_REACH("end");
	vt_close();
}

/* Data made by a host program is the same as data made by the program, and the other way round. */
static dl_error_t cb_make(duckVM_t *vm) {
	dl_error_t e;
	(void) vm;
	if ((e = duckVM_pushCons(&VM))) return e;
	for (int k = 1; k >= 0; k--) {      /* (in0 in1), from the end */
		if ((e = duckVM_pushCons(&VM)) || (e = vt_push(&VM, vt_inputs[k])) || (e = duckVM_setCar(&VM, -2)) || (e = duckVM_pop(&VM))) return e;
		if (k == 0) {
			if ((e = duckVM_push(&VM, -2)) || (e = duckVM_setCdr(&VM, -2)) || (e = duckVM_pop(&VM))) return e;
		}
	}
	/* junk (1) (0 1) */
	if ((e = duckVM_copyFromTop(&VM, -3)) || (e = duckVM_popSeveral(&VM, 2))) return e;
	return e;
}
static dl_error_t cb_makevec(duckVM_t *vm) {
	dl_error_t e = duckVM_pushVector(vm, 3);
	for (int k = 0; k < 2 && !e; k++) { if ((e = vt_push(vm, vt_inputs[k])) || (e = duckVM_setElement(vm, k, -2)) || (e = duckVM_pop(vm))) return e; }
	return e;
}
static dl_error_t cb_makestr(duckVM_t *vm) { return duckVM_pushString(vm, (dl_uint8_t *) "ab\0c", 4); }
/* @q configs=default,inference tconfigs=default,inference,portable max=60 tmax=500 reach=end | lists, vectors and strings made by callbacks from arbitrary integers, read by 16 program expressions, on heaps of 64 objects */
void h_made(void) {
	static const struct { const char *s; int k; long v; } use[] = {
		{"(__length (mk))", 0, 2}, {"(__car (mk))", 1}, {"(__car (__cdr (mk)))", 2}, {"(__null? (__cdr (__cdr (mk))))", 3, 1},
		{"(__apply (__lambda (a b) (__- a b)) (mk))", 4}, {"(__apply (__lambda (&rest r) (__length r)) 7 (mk))", 0, 3},
		{"((__var l (mk)) (__set-cdr (__cdr l) (__list 4)) (__length l))", 0, 3}, {"((__var l (mk)) (__set-car l 4) (__car l))", 0, 4},
		{"(__length (mkv))", 0, 3}, {"(__get-vector-element (mkv) 1)", 2}, {"(__car (__cdr (mkv)))", 2}, {"(__null? (__get-vector-element (mkv) 2))", 3, 1},
		{"((__var v (mkv)) (__set-vector-element v 2 9) (__get-vector-element v 2))", 0, 9}, {"(__length (mks))", 0, 4},
		{"(__= (mks) (__make-string (__list 97 98 0 99)))", 3, 1}, {"(__length (__cdr (mks)))", 0, 3},
	};
	vt_open_n(2, 64);
	VT_ASSERT(!vt_link("mk", cb_make, "()") && !vt_link("mkv", cb_makevec, "()") && !vt_link("mks", cb_makestr, "()"), "callbacks link");
	vt_inputs[0] = vI((long) vt_draw()); vt_inputs[1] = vI((long) vt_draw());
	unsigned long p = vt_pick(sizeof use / sizeof *use);
	V want = use[p].k == 0 ? vI(use[p].v) : use[p].k == 1 ? vt_inputs[0] : use[p].k == 2 ? vt_inputs[1] : use[p].k == 3 ? vB((int) use[p].v) : vI((long) ((unsigned long) vt_inputs[0].i - (unsigned long) vt_inputs[1].i));
	VT_ASSERT(vt_same(vt_value_of(use[p].s), want), "the program sees what the host made");
	VT_REACH("end");
	vt_close();
}
/* @q configs=default,inference tconfigs=default,inference,portable max=60 tmax=500 reach=end | 11 values of programs (lists, vectors, rests of vectors, vectors that were cut off, substrings, composites, closures with captured variables) read through the API */
void h_read(void) {
	static const char *const prog[] = {
		"(__list (in0) (in1))", "(__cons (in0) (in1))", "(__vector (in0) (in1))", "(__cdr (__vector 1 (in0) (in1)))", "(__cdr (__vector (in0)))",
		"((__var v (__vector 1 2 (in0))) (__var r (__cdr (__cdr v))) (__set-cdr v ()) r)", "(__substring \"abcde\" 1 3)", "(__cdr \"a\")",
		"(__make-instance (__make-type) (in0) (in1))", "(__make-vector 2 (in0))", "((__var a (in0)) (__var b (in1)) (__lambda () (__setq a (__+ a 1)) b))",
	};
	dl_size_t u = 9;
	vt_open_n(2, 64);
	vt_inputs[0] = vI((long) vt_draw()); vt_inputs[1] = vI((long) vt_draw());
	M a = m(O_INT, vt_inputs[0].i, 0), b = m(O_INT, vt_inputs[1].i, 0), x = m_nil();
	unsigned long p = vt_pick(sizeof prog / sizeof *prog);
	VT_ASSERT(!vt_do(prog[p]), "the program runs");
	switch (p) {
	case 0: cell[0].a = a; cell[0].b = m(O_CONS, 0, 1); cell[1].a = b; cell[1].b = m_nil(); x = m(O_CONS, 0, 0); break;
	case 1: cell[0].a = a; cell[0].b = b; x = m(O_CONS, 0, 0); break;
	case 2: case 3: vec[0].n = 2; vec[0].e[0] = a; vec[0].e[1] = b; x = m(O_VEC, 0, 0); break;
	case 4: case 5: vec[0].n = 0; x = m(O_VEC, 0, 0); break;
	case 6: str[0].n = 2; str[0].c[0] = 'b'; str[0].c[1] = 'c'; x = m(O_STR, 0, 0); break;
	case 7: str[0].n = 0; x = m(O_STR, 0, 0); break;
	case 8: OK(duckVM_copyCompositeType(&VM, &u)); VT_ASSERT(u >= duckVM_object_type_last, "a new type"); comp[0].type = u; comp[0].v = a; comp[0].f = b; x = m(O_COMP, 0, 0); break;
	case 9: vec[0].n = 2; vec[0].e[0] = vec[0].e[1] = a; x = m(O_VEC, 0, 0); break;
	case 10: {
		unsigned long i = vt_draw();
		OK(duckVM_length(&VM, &u)); VT_ASSERT(u == 2, "two variables are captured");
		dl_size_t h = duckVM_stackLength(&VM);
		if (duckVM_pushElement(&VM, (long) i)) { VT_ASSERT(i >= 2, "only variables that do not exist are refused"); VT_ASSERT(duckVM_stackLength(&VM) == h, "the stack is unchanged"); vt_close(); return; }
		VT_ASSERT(i < 2, "variables that do not exist are refused");
		OK(duckVM_push(&VM, -2)); OK(duckVM_pushElement(&VM, i == 0));
		V q = vt_top(&VM); OK(duckVM_popSeveral(&VM, 2)); V w = vt_top(&VM);
		VT_ASSERT((vt_same(q, vt_inputs[0]) && vt_same(w, vt_inputs[1])) || (vt_same(w, vt_inputs[0]) && vt_same(q, vt_inputs[1])), "the captured variables are read");
		OK(duckVM_pop(&VM));
		VT_REACH("end"); vt_close(); return; }
	}
	check_top(x, 3);
	VT_REACH("end");
	vt_close();
}
