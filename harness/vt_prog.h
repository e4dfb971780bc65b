/* Arbitrary small programs over (in0), (in1), .. and a reference interpreter for them (written from the language manual).
   Programs are trees with a budget of operator nodes; every tree within the budget is a path of the exploration. */
#ifndef VT_PROG_H
#define VT_PROG_H
#include "vt_dl.h"

enum { K_VAR, K_IN, K_LIT, K_ADD, K_SUB, K_LT, K_EQ, K_NOT, K_IF, K_WHEN, K_UNLESS, K_SETQ, K_SCOPE, K_WHILE, K_LAMBDA, K_CALL, K_DEFUN, K_LETFN, K_NOSCOPE, K_CELL, K_LISTN, K_VECN, K_HOST, K_APPLY, K_REST, K_SELF, K_GLOB, K_BOX, K_LAST };
typedef struct { int k, name, c[3]; } Node;
static Node N[64];
static int nN;
static int budget;               /* operator nodes left */
static int palette[K_LAST], npalette;
static int vis[16], nvis;        /* visible variable names, innermost last */
static int locked;               /* loop counters and functions are never assigned */
static int lock_name[16];
static int atom_pick, atom_turn, nin;
static const char *const vnames[] = {"a", "b", "c", "d", "i", "f", "g", "h"};

static int node(int k, int name, int c0, int c1, int c2) { N[nN].k = k; N[nN].name = name; N[nN].c[0] = c0; N[nN].c[1] = c1; N[nN].c[2] = c2; return nN++; }
static int gen_atom(void) {
	int n = nvis + 2, w;
	if (atom_pick) w = vt_pick(n < 4 ? n : 4);
	else w = atom_turn++ % n;
	/* innermost variables first, then an input, then a literal */
	if (w < nvis && !(atom_pick && w >= 2)) return node(K_VAR, vis[nvis - 1 - w], -1, -1, -1);
	if (atom_pick && nvis >= 2) w -= 2; else w -= nvis;
	if (w == 0) return node(K_IN, nN % nin, -1, -1, -1);
	return node(K_LIT, 3 + nN % 5, -1, -1, -1);
}
static int fresh(int base, int n) {                          /* a fresh name, or one that shadows */
	int used = 0;
	for (int i = 0; i < nvis; i++) if (vis[i] >= base && vis[i] < base + n) used++;
	if (used && vt_pick(2)) return base + used - 1 < base + n ? base + used - 1 : base;
	return base + (used < n ? used : n - 1);
}
static int gen(void);
static int gen2(int k) {
	int a, b, c, name;
	switch (k) {
	case K_ADD: case K_SUB: case K_LT: case K_EQ: a = gen(); b = gen(); return node(k, 0, a, b, -1);
	case K_NOT: a = gen(); return node(k, 0, a, -1, -1);
	case K_IF: case K_WHEN: case K_UNLESS: a = gen(); b = gen(); c = gen(); return node(k, 0, a, b, c);
	case K_SETQ: {
		int cand[16], nc = 0;
		for (int i = nvis - 1; i >= 0; i--) if (vis[i] < 4) cand[nc++] = vis[i];
		if (!nc) { budget++; return gen_atom(); }
		name = cand[nc > 1 ? vt_pick(2) : 0];
		a = gen();
		return node(k, name, a, -1, -1);
	}
	case K_SCOPE: case K_NOSCOPE:
		name = fresh(0, 4);
		a = gen();
		vis[nvis++] = name;
		b = gen(); c = gen();
		nvis--;
		return node(k, name, a, b, c);
	case K_WHILE:
		vis[nvis++] = 4;
		a = gen();
		b = gen();
		nvis--;
		return node(k, 4, a, b, -1);
	case K_LAMBDA:
		name = fresh(0, 4);
		vis[nvis++] = name;
		a = gen();
		nvis--;
		return node(k, name, a, -1, -1);
	case K_CALL:                                         /* (__funcall (__lambda (p) body) arg) */
		a = gen();
		name = fresh(0, 4);
		vis[nvis++] = name;
		b = gen();
		nvis--;
		return node(k, name, a, b, -1);
	case K_DEFUN:                                        /* ((__defun f (p) body) (+ (f x) (f (f y)))) */
		name = fresh(0, 4);
		vis[nvis++] = name;
		a = gen();
		nvis--;
		b = gen();
		c = gen();
		return node(k, name, a, b, c);
	case K_LETFN:                                        /* ((__var g (__lambda (p) body)) e (__funcall g arg)) */
		name = fresh(0, 4);
		vis[nvis++] = name;
		a = gen();
		nvis--;
		b = gen();
		c = gen();
		return node(k, name, a, b, c);
	case K_LISTN: case K_VECN: case K_REST: case K_GLOB: case K_BOX: name = vt_pick(3); a = gen(); b = gen(); c = gen(); return node(k, name, a, b, c);
	case K_HOST: a = gen(); b = gen(); return node(k, 0, a, b, -1);
	case K_APPLY:                                        /* (__apply (__lambda (p &rest q) body) x (__list y)) */
		a = gen();
		b = gen();
		name = fresh(0, 4);
		vis[nvis++] = name;
		c = gen();
		nvis--;
		return node(k, name, a, b, c);
	case K_SELF:                                         /* recursion as a loop: body, in7 times, then the end */
		vis[nvis++] = 4;
		a = gen();
		b = gen();
		nvis--;
		return node(k, 4, a, b, -1);
	case K_CELL:                                         /* a getter and a setter sharing a variable that went out of scope */
		name = fresh(0, 4);
		a = gen();
		b = gen();
		c = gen();
		return node(k, name, a, b, c);
	}
	return gen_atom();
}
static int gen(void) {
	if (budget <= 0) return gen_atom();
	int w = vt_pick(npalette + 1);
	if (w == npalette) return gen_atom();
	budget--;
	return gen2(palette[w]);
}

static void emit(int n);
static void emit_form(const char *head, int n, int args) {
	P("("); P(head);
	for (int i = 0; i < args; i++) { P(" "); emit(N[n].c[i]); }
	P(")");
}
static void emit(int n) {
	Node *x = &N[n];
	const char *nm = vnames[x->name & 7];
	switch (x->k) {
	case K_VAR: P(nm); break;
	case K_IN: P("(in"); PU(x->name); P(")"); break;
	case K_LIT: PU(x->name); break;
	case K_ADD: emit_form("__+", n, 2); break;
	case K_SUB: emit_form("__-", n, 2); break;
	case K_LT: emit_form("__<", n, 2); break;
	case K_EQ: emit_form("__=", n, 2); break;
	case K_NOT: emit_form("__not", n, 1); break;
	case K_IF: emit_form("__if", n, 3); break;
	case K_WHEN: emit_form("__when", n, 3); break;
	case K_UNLESS: emit_form("__unless", n, 3); break;
	case K_SETQ: P("(__setq "); P(nm); P(" "); emit(x->c[0]); P(")"); break;
	case K_SCOPE: P("((__var "); P(nm); P(" "); emit(x->c[0]); P(") "); emit(x->c[1]); P(" "); emit(x->c[2]); P(")"); break;
	case K_NOSCOPE: P("((__noscope (__var "); P(nm); P(" "); emit(x->c[0]); P(") "); emit(x->c[1]); P(") "); emit(x->c[2]); P(")"); break;
	case K_WHILE: P("((__var i 0) (__while (__< i (in7)) "); emit(x->c[0]); P(" (__setq i (__+ i 1))) "); emit(x->c[1]); P(")"); break;
	case K_LAMBDA: P("(__lambda ("); P(nm); P(") "); emit(x->c[0]); P(")"); break;
	case K_CALL: P("(__funcall (__lambda ("); P(nm); P(") "); emit(x->c[1]); P(") "); emit(x->c[0]); P(")"); break;
	case K_DEFUN: P("((__defun f ("); P(nm); P(") "); emit(x->c[0]); P(") (__+ (f "); emit(x->c[1]); P(") (f (f "); emit(x->c[2]); P("))))"); break;
	case K_LETFN: P("((__var g (__lambda ("); P(nm); P(") "); emit(x->c[0]); P(")) "); emit(x->c[1]); P(" (__funcall g "); emit(x->c[2]); P("))"); break;
	case K_LISTN: P(x->name == 0 ? "(__car " : x->name == 1 ? "(__car (__cdr " : "(__car (__cdr (__cdr "); emit_form("__list", n, 3); P(x->name == 0 ? ")" : x->name == 1 ? "))" : ")))"); break;
	case K_VECN: P("(__get-vector-element "); emit_form("__vector", n, 3); P(" "); PU(x->name); P(")"); break;
	case K_HOST: emit_form("host", n, 2); break;
	case K_APPLY: P("(__apply (__lambda ("); P(nm); P(" &rest r) "); emit(x->c[2]); P(") "); emit(x->c[0]); P(" (__list "); emit(x->c[1]); P("))"); break;
	case K_REST: P("(__funcall (__lambda (&rest r) (__car "); P(x->name == 0 ? "r" : x->name == 1 ? "(__cdr r)" : "(__cdr (__cdr r))"); P(")) "); for (int i = 0; i < 3; i++) { emit(x->c[i]); P(" "); } P(")"); break;
	case K_SELF: P("(__funcall (__lambda (i) (__if (__< i (in7)) ((__var k 0) "); emit(x->c[0]); P(" (self (__+ i 1))) "); emit(x->c[1]); P(")) 0)"); break;
	case K_GLOB: P("((__global gl "); emit(x->c[0]); P(") "); emit(x->c[1]); P(" (__setq gl (__+ gl ((__var gk 1) "); emit(x->c[2]); P("))) gl)"); break;
	case K_BOX: P("((__var bx (__make-instance (__make-type) "); emit(x->c[0]); P(" ())) (__set-composite-value bx "); emit(x->c[1]); P(") (__list "); emit(x->c[2]); P(") (__composite-value bx))"); break;
	case K_CELL: P("((__var g ()) (__var h ((__var "); P(nm); P(" "); emit(x->c[0]); P(") (__setq g (__lambda () "); P(nm); P(")) (__lambda (v) (__setq "); P(nm); P(" v)))) (__funcall h "); emit(x->c[1]); P(") (__+ (__funcall g) ((__funcall h "); emit(x->c[2]); P(") (__funcall g))))"); break;
	}
}

/* Reference interpreter.  Variables live in cells; an environment is a chain of (name, cell). */
typedef struct { int name, cell, up; } Env;
static Env E[128];
static int nE;
static V cell[128];
static int ncell;
static int r_error, r_unspec;
static int vt_host;              /* programs may call (host x y) */
typedef struct { int node, env; } Fn;
static Fn fns[64];
static int nfn;
static int bind(int env, int name, V v) { cell[ncell] = v; E[nE].name = name; E[nE].cell = ncell++; E[nE].up = env; return nE++; }
static int find(int env, int name) { for (; env >= 0; env = E[env].up) if (E[env].name == name) return E[env].cell; return -1; }
static int truthy(V v) { return v.t == duckVM_object_type_list ? 0 : v.t == duckVM_object_type_float ? v.f != 0 : v.t == duckVM_object_type_closure ? 1 : v.i != 0; }
static V ev(int n, int env);
static V r_err(void) { r_error = 1; return vN(); }
static V apply1(V f, V arg) {
	if (f.t != duckVM_object_type_closure) return r_err();
	Fn *fn = &fns[f.i];
	Node *x = &N[fn->node];
	int body = x->k == K_CALL ? x->c[1] : x->c[0];
	return ev(body, bind(fn->env, x->name, arg));
}
static V ev2(int op, int n, int env) {                    /* a binary operator */
	Node *x = &N[n];
	V a = ev(x->c[0], env);
	if (r_error) return a;
	V b = ev(x->c[1], env);
	if (r_error) return b;
	/* whether a variable operand is read before or after the second operand's side effects is not specified */
	if (N[x->c[0]].k == K_VAR) { V now = cell[find(env, N[x->c[0]].name)]; if (now.t != a.t) r_unspec = 1; else if (now.i != a.i) r_unspec = 1; }
	if (op == K_EQ) {
		if (a.t == duckVM_object_type_closure) return r_err();
		return vB(a.t == b.t && a.i == b.i);
	}
	if (!vt_isnum(a) || !vt_isnum(b)) return r_err();
	if (op == K_LT) return vB(a.i < b.i);
	if (a.t == duckVM_object_type_bool && b.t == duckVM_object_type_bool) { r_unspec = 1; return vN(); }
	return vt_arith(op == K_ADD ? 0 : 1, a, b);
}
static V r_glob;
static int r_reads;
/* k operands, the value of one of them; the order of evaluation is not specified, so it must not matter. */
static V ev_last(int n, int env, int k, int want) {
	static V before[16][128], after[16][128];
	static int depth;
	Node *x = &N[n];
	V v[3], w[3], g = r_glob, g1;
	int c = ncell, e1, ne = nE, nf = nfn, d = depth;
	if (d >= 16) { r_unspec = 1; return vN(); }
	depth++;
	for (int i = 0; i < c; i++) before[d][i] = cell[i];
	for (int i = k; i-- > 0;) { v[i] = ev(x->c[i], env); if (r_error) break; }
	e1 = r_error; g1 = r_glob;
	if (!r_unspec) {
		for (int i = 0; i < c; i++) { after[d][i] = cell[i]; cell[i] = before[d][i]; }
		r_error = 0; r_glob = g; ncell = c; nE = ne; nfn = nf;
		for (int i = 0; i < k; i++) { w[i] = ev(x->c[i], env); if (r_error) break; }
		if (r_error != e1) r_unspec = 1;
		else if (!e1) {
			for (int i = 0; i < k; i++) {
				if (w[i].t != v[i].t) r_unspec = 1; else if (w[i].i != v[i].i && w[i].t != duckVM_object_type_closure) r_unspec = 1;
				if (N[x->c[i]].k == K_VAR) {                 /* read when the others are done */
					V late = cell[find(env, N[x->c[i]].name)];
					if (late.t != w[i].t) r_unspec = 1; else if (late.i != w[i].i) r_unspec = 1;
				}
			}
			for (int i = 0; i < c; i++) if (after[d][i].t != cell[i].t) r_unspec = 1; else if (after[d][i].i != cell[i].i && cell[i].t != duckVM_object_type_closure) r_unspec = 1;
			if (g1.t != r_glob.t) r_unspec = 1; else if (g1.i != r_glob.i && g1.t != duckVM_object_type_closure) r_unspec = 1;
		}
	}
	depth--;
	return e1 || r_unspec ? vN() : w[want];
}
static V add2(V a, V b) {
	if (!vt_isnum(a) || !vt_isnum(b)) return r_err();
	if (a.t == duckVM_object_type_bool && b.t == duckVM_object_type_bool) { r_unspec = 1; return vN(); }
	return vt_arith(0, a, b);
}
static V ev_host(V v) { return v; }                        /* (host x y): x */
static dl_error_t cb_host(duckVM_t *vm) {
	dl_error_t e = duckVM_pop(vm);
	return e;
}
static V ev(int n, int env) {
	Node *x = &N[n];
	V v, w;
	int e2;
	if (r_error || r_unspec) return vN();
	switch (x->k) {
	case K_VAR: return cell[find(env, x->name)];
	case K_IN: return vt_inputs[x->name];
	case K_LIT: return vI(x->name);
	case K_ADD: case K_SUB: case K_LT: case K_EQ: return ev2(x->k, n, env);
	case K_NOT:
		v = ev(x->c[0], env);
		if (v.t == duckVM_object_type_closure) return r_err();
		if (v.t == duckVM_object_type_integer) return vI(!v.i);
		return vB(!truthy(v));
	case K_IF: return truthy(ev(x->c[0], env)) ? ev(x->c[1], env) : ev(x->c[2], env);
	case K_WHEN: case K_UNLESS:
		if (truthy(ev(x->c[0], env)) != (x->k == K_WHEN)) return vN();
		ev(x->c[1], env);
		return ev(x->c[2], env);
	case K_SETQ:
		v = ev(x->c[0], env);
		if (!r_error) cell[find(env, x->name)] = v;
		return v;
	case K_SCOPE: case K_NOSCOPE:
		e2 = bind(env, x->name, ev(x->c[0], env));
		ev(x->c[1], e2);
		return ev(x->c[2], e2);
	case K_WHILE:
		e2 = bind(env, 4, vI(0));
		while (!r_error && !r_unspec && cell[E[e2].cell].i < vt_inputs[7].i) {
			ev(x->c[0], e2);
			cell[E[e2].cell].i++;
		}
		return ev(x->c[1], e2);
	case K_LAMBDA:
		v.t = duckVM_object_type_closure; v.i = nfn; v.f = 0;
		fns[nfn].node = n; fns[nfn++].env = env;
		return v;
	case K_CALL:
		v = ev(x->c[0], env);
		if (r_error) return v;
		return ev(x->c[1], bind(env, x->name, v));
	case K_DEFUN:
		v.t = duckVM_object_type_closure; v.i = nfn; v.f = 0;
		e2 = bind(env, 5, v);
		fns[nfn].node = n; fns[nfn++].env = e2;
		{
			V p = apply1(v, ev(x->c[1], e2));
			if (r_error) return p;
			V q = apply1(v, apply1(v, ev(x->c[2], e2)));
			if (r_error) return q;
			return add2(p, q);
		}
	case K_LETFN:
		v.t = duckVM_object_type_closure; v.i = nfn; v.f = 0;
		fns[nfn].node = n; fns[nfn++].env = env;
		e2 = bind(env, 6, v);
		ev(x->c[1], e2);
		w = ev(x->c[2], e2);
		if (r_error) return w;
		return apply1(v, w);
	case K_LISTN: case K_VECN: case K_REST: return ev_last(n, env, 3, x->name);
	case K_HOST: v = ev_last(n, env, 2, 0); if (r_error || r_unspec) return v; return ev_host(v);
	case K_APPLY:
		v = ev_last(n, env, 2, 0);
		if (r_error || r_unspec) return v;
		return ev(x->c[2], bind(env, x->name, v));
	case K_SELF:
		for (long i = 0;; i++) {
			e2 = bind(env, 4, vI(i));
			if (i >= vt_inputs[7].i) return ev(x->c[1], e2);
			ev(x->c[0], e2);
			if (r_error || r_unspec) return vN();
		}
	case K_GLOB:
		r_glob = ev(x->c[0], env); if (r_error) return r_glob;
		ev(x->c[1], env); if (r_error) return r_glob;
		v = r_glob; r_reads++;
		{
			int before = r_reads;
			w = ev(x->c[2], env); if (r_error) return w;
			if (r_reads != before) r_unspec = 1;  /* gl itself is assigned in its operand */
		}
		v = add2(v, w); if (r_error) return v;
		return r_glob = v;
	case K_BOX:
		ev(x->c[0], env); if (r_error) return vN();
		v = ev(x->c[1], env); if (r_error) return v;
		ev(x->c[2], env);
		return v;
	case K_CELL: {
		V p, q;
		v = ev(x->c[0], env); if (r_error) return v;
		(void) v;
		p = ev(x->c[1], env); if (r_error) return p;
		q = ev(x->c[2], env); if (r_error) return q;
		return add2(p, q);
	}
	}
	return vN();
}
/* Draws a program, runs it on the compiler and VM, and compares with the reference.  in7 counts loop rounds. */
/* Alternative spelling of programs, and text before them. */
static void (*vt_emit)(int) = emit;
static void (*vt_prelude)(void);
static void vt_program(const int *kinds, int nkinds, int operators, int pick_atoms, int nvars, int inputs, int first) {
	int root;
	vt_open(8);
	if (vt_host) VT_ASSERT(!vt_link("host", cb_host, "(I I)"), "callback links");
	for (npalette = 0; npalette < nkinds; npalette++) palette[npalette] = kinds[npalette];
	budget = operators; atom_pick = pick_atoms; nin = inputs;
	for (nvis = 0; nvis < nvars; nvis++) vis[nvis] = nvis;
	if (first >= 0) { budget--; root = gen2(first); }
	else root = gen();
	for (int i = 0; i < 3; i++) vt_inputs[i] = vI((long) vt_draw());
	vt_inputs[7] = vI(vt_range(0, 2));
	int env = -1;
	vt_n = 0;
	P("(");
	if (vt_prelude) vt_prelude();
	for (int i = 0; i < nvars; i++) {
		P("(__var "); P(vnames[i]); P(" (in"); PU(i); P(")) ");
		env = bind(env, i, vt_inputs[i]);
	}
	if (!nvars) P("(__noscope) ");
	/* the value of the program, and then what became of its variables */
	P("(__var z "); vt_emit(root); P(") (__setq in-a "); P(nvars > 0 ? "a" : "0"); P(") (__setq in-b "); P(nvars > 1 ? "b" : "0"); P(") z)");
	V want = ev(root, env);
	if (r_unspec) { VT_REACH("unspecified"); return; }
	V wa = nvars > 0 ? cell[0] : vI(0), wb = nvars > 1 ? cell[1] : vI(0);
	dl_error_t e = vt_compile();
	VT_ASSERT(!e, "the program compiles");
	VT_ASSERT(duckLisp_symbol_nameToValue(&DLC, (dl_uint8_t *) "in-a", 4) != -1, "the global is known");
	e = duckVM_execute(&VM, vt_bc, vt_bcn);
	vt_free_bc();
	VT_OBSERVE(!e);
	VT_ASSERT(!!e == !!r_error, "the program fails exactly when an operand is not a number or not a function");
	if (e) { VT_REACH("error"); return; }
	V got = vt_top(&VM);
	VT_OBSERVE(got.t); VT_OBSERVE(got.t == duckVM_object_type_closure ? 0 : got.i);
	VT_ASSERT(got.t == want.t, "the type of the value");
	VT_ASSERT(got.t == duckVM_object_type_closure || vt_same(got, want), "the value");
	VT_ASSERT(!duckVM_popAll(&VM), "the stack can be emptied");
	if (wa.t != duckVM_object_type_closure) VT_ASSERT(vt_same(vt_value_of("in-a"), wa), "the first variable afterwards");
	if (wb.t != duckVM_object_type_closure) VT_ASSERT(vt_same(vt_value_of("in-b"), wb), "the second variable afterwards");
	VT_REACH("end");
}
#endif
