// symx: a bounded symbolic executor for LLVM IR (path forking, Z3 bit-vector / FP back end).
//
// It executes the IR that clang produces from the repository's current C sources.  Values drawn by a harness
// (vt_draw) are symbolic 64-bit bit-vectors.  Every branch whose condition depends on them is decided by the
// solver: both sides are followed when both are satisfiable.  Memory is object-granular: every access is checked
// against bounds and lifetime, for every value the path condition admits.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <set>
#include <bitset>
#include <chrono>
#include <algorithm>
#include <functional>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <z3++.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;
typedef __uint128_t u128;
using std::vector; using std::string;

static double now() {
	return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
[[noreturn]] static void die(const string &s) { fprintf(stderr, "symx: %s\n", s.c_str()); exit(3); }

// ---------------------------------------------------------------------------------------------- expressions
enum Op : u8 { CONST, VAR, UNINIT, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
	EQ, ULT, ULE, SLT, SLE, ITE, ZEXT, SEXT, EXTRACT, CONCAT,
	FADD, FSUB, FMUL, FDIV, FREM, FEQ, FLT, FLE, FUNO, FPTOSI, FPTOUI, SITOFP, UITOFP, FPEXT, FPTRUNC };
enum { MAXVARS = 512 };
typedef std::bitset<MAXVARS> VarSet;

struct Expr {
	Op op; u8 w; bool uninit, fp; u32 id; u64 k; const Expr *a, *b, *c;
	VarSet vs;
	mutable u64 estamp = 0, ev = 0;
};
typedef const Expr *E;
static inline u64 maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, int w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
static double asd(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static u64 dbits(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static float asf(u64 v) { float d; u32 t = (u32)v; memcpy(&d, &t, 4); return d; }
static u64 fbits(float d) { u32 v; memcpy(&v, &d, 4); return v; }

struct Key { Op op; u8 w; u64 k; E a, b, c;
	bool operator==(const Key &o) const { return op==o.op && w==o.w && k==o.k && a==o.a && b==o.b && c==o.c; } };
struct KeyH { size_t operator()(const Key &x) const {
	size_t h = x.op * 1000003u + x.w; auto mix=[&](u64 v){ h ^= v + 0x9e3779b97f4a7c15ull + (h<<6) + (h>>2); };
	mix(x.k); mix((u64)x.a); mix((u64)x.b); mix((u64)x.c); return h; } };
static std::unordered_map<Key, Expr *, KeyH> g_intern;
static u32 g_nexpr = 0;

static E intern(Op op, int w, u64 k, E a, E b, E c) {
	Key key{op, (u8)w, k, a, b, c};
	auto it = g_intern.find(key);
	if (it != g_intern.end()) return it->second;
	Expr *e = new Expr(); e->op = op; e->w = w; e->k = k; e->a = a; e->b = b; e->c = c; e->id = ++g_nexpr;
	e->uninit = op == UNINIT; e->fp = op >= FADD;
	if (op == VAR) e->vs.set(k);
	for (E x : {a, b, c}) if (x) { e->vs |= x->vs; e->uninit |= x->uninit; e->fp |= x->fp; }
	g_intern.emplace(key, e);
	return e;
}
static E mkc(int w, u64 v) { return intern(CONST, w, v & maskw(w), 0, 0, 0); }
static inline bool isc(E e) { return e->op == CONST; }

static u64 foldfp(Op op, int w, u64 x, u64 y) { // w: operand width
	if (w == 64) { double a = asd(x), b = asd(y);
		switch (op) { case FADD: return dbits(a+b); case FSUB: return dbits(a-b); case FMUL: return dbits(a*b);
		case FDIV: return dbits(a/b); case FREM: return dbits(fmod(a,b));
		case FEQ: return a==b; case FLT: return a<b; case FLE: return a<=b; case FUNO: return a!=a || b!=b; default: ; } }
	else { float a = asf(x), b = asf(y);
		switch (op) { case FADD: return fbits(a+b); case FSUB: return fbits(a-b); case FMUL: return fbits(a*b);
		case FDIV: return fbits(a/b); case FREM: return fbits(fmodf(a,b));
		case FEQ: return a==b; case FLT: return a<b; case FLE: return a<=b; case FUNO: return a!=a || b!=b; default: ; } }
	die("foldfp");
}
static i64 safe_fptosi(double d) { if (!(d >= -9223372036854775808.0 && d < 9.223372036854775807e18)) return INT64_MIN; return (i64)d; }
static u64 safe_fptoui(double d) { if (!(d > -1 && d < 1.8446744073709551615e19)) return 1ull<<63; return (u64)d; }
static u64 fold(Op op, int w, u64 k, int aw, u64 x, u64 y, u64 z) {
	u64 m = maskw(w);
	switch (op) {
	case ADD: return (x + y) & m; case SUB: return (x - y) & m; case MUL: return (x * y) & m;
	case UDIV: return y ? x / y : m; case UREM: return y ? x % y : x;
	case SDIV: { i64 a = sx(x,w), b = sx(y,w); if (!b) return a < 0 ? 1 : m; if (b == -1) return (0-x) & m; return (u64)(a / b) & m; }
	case SREM: { i64 a = sx(x,w), b = sx(y,w); if (!b) return x; if (b == -1) return 0; return (u64)(a % b) & m; }
	case AND: return x & y; case OR: return x | y; case XOR: return x ^ y;
	case SHL: return y >= (u64)w ? 0 : (x << y) & m; case LSHR: return y >= (u64)w ? 0 : x >> y;
	case ASHR: return (u64)(sx(x,w) >> (y >= (u64)w ? (w >= 64 ? 63 : w-1) : y)) & m;
	case EQ: return x == y; case ULT: return x < y; case ULE: return x <= y;
	case SLT: return sx(x,aw) < sx(y,aw); case SLE: return sx(x,aw) <= sx(y,aw);
	case ITE: return x ? y : z;
	case ZEXT: return x; case SEXT: return (u64)sx(x,aw) & m; case EXTRACT: return (x >> k) & m;
	case CONCAT: return ((x << k) | y) & m; // k = width of low part
	case FADD: case FSUB: case FMUL: case FDIV: case FREM: case FEQ: case FLT: case FLE: case FUNO: return foldfp(op, aw, x, y);
	case FPTOSI: return (u64)safe_fptosi(aw==64?asd(x):(double)asf(x)) & m;
	case FPTOUI: return safe_fptoui(aw==64?asd(x):(double)asf(x)) & m;
	case SITOFP: return w==64 ? dbits((double)sx(x,aw)) : fbits((float)sx(x,aw));
	case UITOFP: return w==64 ? dbits((double)x) : fbits((float)x);
	case FPEXT: return dbits((double)asf(x)); case FPTRUNC: return fbits((float)asd(x));
	default: die("fold");
	}
}
static E mk(Op op, int w, E a, E b = 0, E c = 0, u64 k = 0);
static E mknot(E a) {
	if (isc(a)) return mkc(1, !a->k);
	if (a->op == XOR && isc(a->b) && a->w == 1) return a->a;
	return intern(XOR, 1, 0, a, mkc(1, 1), 0);
}
static E mkextract(E a, unsigned lo, int w) {
	if (lo == 0 && w == a->w) return a;
	if (isc(a)) return mkc(w, a->k >> lo);
	if (a->op == EXTRACT) return mkextract(a->a, lo + a->k, w);
	if (a->op == CONCAT) { unsigned lw = a->k;
		if (lo >= lw) return mkextract(a->a, lo - lw, w);
		if (lo + w <= lw) return mkextract(a->b, lo, w); }
	if (a->op == ZEXT) { unsigned iw = a->a->w;
		if (lo >= iw) return mkc(w, 0);
		if (lo + w <= iw) return mkextract(a->a, lo, w);
		if (lo == 0) return mk(ZEXT, w, a->a); }
	if (a->op == SEXT && lo == 0) { unsigned iw = a->a->w;
		if ((unsigned)w <= iw) return mkextract(a->a, 0, w);
		return mk(SEXT, w, a->a); }
	if (lo == 0 && (a->op == AND || a->op == OR || a->op == XOR || a->op == ADD || a->op == SUB || a->op == MUL) && isc(a->b))
		return mk(a->op, w, mkextract(a->a, 0, w), mkextract(a->b, 0, w));
	if (a->op == AND && isc(a->b) && ((a->b->k >> lo) & maskw(w)) == 0) return mkc(w, 0);
	if (a->op == ITE && isc(a->b) && isc(a->c)) return mk(ITE, w, a->a, mkextract(a->b, lo, w), mkextract(a->c, lo, w));
	return intern(EXTRACT, w, lo, a, 0, 0);
}
static E mkconcat(E hi, E lo) {
	int w = hi->w + lo->w;
	if (isc(hi) && isc(lo)) return mkc(w, (hi->k << lo->w) | lo->k);
	if (isc(hi) && hi->k == 0) return mk(ZEXT, w, lo);
	if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->k == lo->k + lo->w) return mkextract(lo->a, lo->k, w);
	if (hi->op == EXTRACT && hi->a == lo && hi->k == lo->w) return mkextract(lo, 0, w);
	return intern(CONCAT, w, lo->w, hi, lo, 0);
}
static bool commut(Op op) { return op==ADD||op==MUL||op==AND||op==OR||op==XOR||op==EQ; }
static E mk(Op op, int w, E a, E b, E c, u64 k) {
	if (isc(a) && (!b || isc(b)) && (!c || isc(c))) return mkc(w, fold(op, w, k, a->w, a->k, b ? b->k : 0, c ? c->k : 0));
	if (commut(op) && isc(a)) std::swap(a, b);
	switch (op) {
	case ADD: if (isc(b)) { if (!b->k) return a; if (a->op == ADD && isc(a->b)) return mk(ADD, w, a->a, mkc(w, a->b->k + b->k)); } break;
	case SUB: if (a == b) return mkc(w, 0); if (isc(b)) return mk(ADD, w, a, mkc(w, 0 - b->k)); break;
	case MUL: if (isc(b)) { if (!b->k) return b; if (b->k == 1) return a; } break;
	case AND: if (a == b) return a; if (isc(b)) { if (!b->k) return b; if (b->k == maskw(w)) return a;
		if (a->op == ZEXT && (b->k & maskw(a->a->w)) == maskw(a->a->w)) return a;
		if (a->op == AND && isc(a->b)) return mk(AND, w, a->a, mkc(w, a->b->k & b->k)); } break;
	case OR: if (a == b) return a; if (isc(b)) { if (!b->k) return a; if (b->k == maskw(w)) return b; } break;
	case XOR: if (a == b) return mkc(w, 0); if (isc(b)) { if (!b->k) return a; if (w == 1) return mknot(a); } break;
	case SHL: case LSHR: case ASHR: if (isc(b)) { if (!b->k) return a;
		if (b->k < (u64)w) { if (op == LSHR) return mk(ZEXT, w, mkextract(a, b->k, w - b->k));
			if (op == SHL) return mkconcat(mkextract(a, 0, w - b->k), mkc(b->k, 0)); } } break;
	case EQ: {
		if (a == b) return mkc(1, 1);
		if (isc(b)) {
			if (a->w == 1) return b->k ? a : mknot(a);
			if (a->op == ZEXT) { if (b->k > maskw(a->a->w)) return mkc(1, 0); return mk(EQ, 1, a->a, mkc(a->a->w, b->k)); }
			if (a->op == SEXT) { if (((u64)sx(b->k & maskw(a->a->w), a->a->w) & maskw(a->w)) != b->k) return mkc(1, 0);
				return mk(EQ, 1, a->a, mkc(a->a->w, b->k)); }
			if (a->op == ITE && isc(a->b) && isc(a->c)) { bool x = a->b->k == b->k, y = a->c->k == b->k;
				if (x && y) return mkc(1, 1); if (x) return a->a; if (y) return mknot(a->a); return mkc(1, 0); }
			if (a->op == ADD && isc(a->b)) return mk(EQ, 1, a->a, mkc(a->w, b->k - a->b->k));
			if (a->op == XOR && isc(a->b)) return mk(EQ, 1, a->a, mkc(a->w, b->k ^ a->b->k));
			if (a->op == CONCAT) return mk(AND, 1, mk(EQ, 1, a->a, mkc(a->a->w, b->k >> a->k)), mk(EQ, 1, a->b, mkc(a->k, b->k)));
		}
		if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mk(EQ, 1, a->a, b->a);
		if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mk(EQ, 1, a->a, b->a);
		if (a->op == CONCAT && b->op == CONCAT && a->k == b->k) return mk(AND, 1, mk(EQ, 1, a->a, b->a), mk(EQ, 1, a->b, b->b));
		break; }
	case ULT: if (a == b) return mkc(1, 0); if (isc(b) && !b->k) return mkc(1, 0);
		if (isc(b) && a->op == ZEXT) { if (b->k > maskw(a->a->w)) return mkc(1, 1); return mk(ULT, 1, a->a, mkc(a->a->w, b->k)); }
		if (isc(a) && b->op == ZEXT) { if (a->k >= maskw(b->a->w)) return mkc(1, 0); return mk(ULT, 1, mkc(b->a->w, a->k), b->a); }
		break;
	case ULE: if (a == b) return mkc(1, 1); if (isc(a) && !a->k) return mkc(1, 1);
		if (isc(b) && a->op == ZEXT) { if (b->k >= maskw(a->a->w)) return mkc(1, 1); return mk(ULE, 1, a->a, mkc(a->a->w, b->k)); }
		break;
	case SLT: if (a == b) return mkc(1, 0);
		if (isc(b) && a->op == ZEXT) { if (sx(b->k, a->w) <= 0) return mkc(1, 0); return mk(ULT, 1, a, b); }
		if (isc(a) && b->op == ZEXT) { if (sx(a->k, b->w) < 0) return mkc(1, 1); return mk(ULT, 1, a, b); }
		break;
	case SLE: if (a == b) return mkc(1, 1);
		if (isc(b) && a->op == ZEXT) { if (sx(b->k, a->w) < 0) return mkc(1, 0); return mk(ULE, 1, a, b); }
		if (isc(a) && b->op == ZEXT) { if (sx(a->k, b->w) <= 0) return mkc(1, 1); return mk(ULE, 1, a, b); }
		break;
	case ITE: if (isc(a)) return a->k ? b : c; if (b == c) return b;
		if (w == 1 && isc(b) && isc(c)) return b->k ? a : mknot(a); break;
	case ZEXT: if (w == a->w) return a; if (a->op == ZEXT) return mk(ZEXT, w, a->a); break;
	case SEXT: if (w == a->w) return a; if (a->op == SEXT) return mk(SEXT, w, a->a); if (a->op == ZEXT) return mk(ZEXT, w, a->a); break;
	default: break;
	}
	if (commut(op) && !isc(b) && a->id > b->id) std::swap(a, b);
	return intern(op, w, k, a, b, c);
}

static u64 g_stamp = 0;
static u64 evalr(E e, const vector<u64> &m) {
	if (e->op == CONST) return e->k;
	if (e->estamp == g_stamp) return e->ev;
	u64 r;
	if (e->op == VAR) r = e->k < m.size() ? m[e->k] & maskw(e->w) : 0;
	else if (e->op == UNINIT) r = 0;
	else if (e->op == ITE) r = evalr(e->a, m) ? evalr(e->b, m) : evalr(e->c, m);
	else r = fold(e->op, e->w, e->k, e->a->w, evalr(e->a, m), e->b ? evalr(e->b, m) : 0, e->c ? evalr(e->c, m) : 0);
	e->estamp = g_stamp; e->ev = r;
	return r;
}
static u64 eval(E e, const vector<u64> &m) { ++g_stamp; return evalr(e, m); }

// ---------------------------------------------------------------------------------------------- solver
static z3::context *Z;
static std::unordered_map<u32, z3::expr *> g_bv, g_bool;
static u64 st_queries = 0, st_cached = 0, st_unknown = 0; static double st_solver = 0;
static unsigned g_solver_ms = 20000;

static z3::expr zbv(E e); static z3::expr zbool(E e);
static z3::expr tofp(E e) { return z3::expr(*Z, Z3_mk_fpa_to_fp_bv(*Z, zbv(e), e->w == 64 ? Z3_mk_fpa_sort_double(*Z) : Z3_mk_fpa_sort_single(*Z))); }
static z3::expr frombv(Z3_ast a) { z3::expr x(*Z, a); return z3::expr(*Z, Z3_mk_fpa_to_ieee_bv(*Z, x)); }
static z3::expr rne() { return z3::expr(*Z, Z3_mk_fpa_round_nearest_ties_to_even(*Z)); }
static z3::expr rtz() { return z3::expr(*Z, Z3_mk_fpa_round_toward_zero(*Z)); }
static z3::expr zboolx(E e) {
	switch (e->op) {
	case CONST: return Z->bool_val(e->k != 0);
	case EQ: return zbv(e->a) == zbv(e->b);
	case ULT: return z3::ult(zbv(e->a), zbv(e->b)); case ULE: return z3::ule(zbv(e->a), zbv(e->b));
	case SLT: return zbv(e->a) < zbv(e->b); case SLE: return zbv(e->a) <= zbv(e->b);
	case AND: return zbool(e->a) && zbool(e->b); case OR: return zbool(e->a) || zbool(e->b);
	case XOR: if (isc(e->b) && e->b->k) return !zbool(e->a); return zbool(e->a) != zbool(e->b);
	case ITE: return z3::ite(zbool(e->a), zbool(e->b), zbool(e->c));
	case FEQ: return z3::expr(*Z, Z3_mk_fpa_eq(*Z, tofp(e->a), tofp(e->b)));
	case FLT: return z3::expr(*Z, Z3_mk_fpa_lt(*Z, tofp(e->a), tofp(e->b)));
	case FLE: return z3::expr(*Z, Z3_mk_fpa_leq(*Z, tofp(e->a), tofp(e->b)));
	case FUNO: { z3::expr x(*Z, Z3_mk_fpa_is_nan(*Z, tofp(e->a))), y(*Z, Z3_mk_fpa_is_nan(*Z, tofp(e->b))); return x || y; }
	default: return zbv(e) == Z->bv_val(1, 1);
	}
}
static z3::expr zbool(E e) {
	auto it = g_bool.find(e->id); if (it != g_bool.end()) return *it->second;
	z3::expr r = zboolx(e); g_bool[e->id] = new z3::expr(r); return r;
}
static z3::expr zbvx(E e) {
	switch (e->op) {
	case CONST: return Z->bv_val((uint64_t)e->k, e->w);
	case VAR: return Z->bv_const(("v" + std::to_string(e->k)).c_str(), e->w);
	case UNINIT: return Z->bv_const(("u" + std::to_string(e->id)).c_str(), e->w);
	case ADD: return zbv(e->a) + zbv(e->b); case SUB: return zbv(e->a) - zbv(e->b); case MUL: return zbv(e->a) * zbv(e->b);
	case UDIV: return z3::udiv(zbv(e->a), zbv(e->b)); case SDIV: return zbv(e->a) / zbv(e->b);
	case UREM: return z3::urem(zbv(e->a), zbv(e->b)); case SREM: return z3::srem(zbv(e->a), zbv(e->b));
	case AND: return zbv(e->a) & zbv(e->b); case OR: return zbv(e->a) | zbv(e->b); case XOR: return zbv(e->a) ^ zbv(e->b);
	case SHL: return z3::shl(zbv(e->a), zbv(e->b)); case LSHR: return z3::lshr(zbv(e->a), zbv(e->b)); case ASHR: return z3::ashr(zbv(e->a), zbv(e->b));
	case ITE: return z3::ite(zbool(e->a), zbv(e->b), zbv(e->c));
	case ZEXT: return z3::zext(zbv(e->a), e->w - e->a->w); case SEXT: return z3::sext(zbv(e->a), e->w - e->a->w);
	case EXTRACT: return zbv(e->a).extract(e->k + e->w - 1, e->k); case CONCAT: return z3::concat(zbv(e->a), zbv(e->b));
	case FADD: return frombv(Z3_mk_fpa_add(*Z, rne(), tofp(e->a), tofp(e->b)));
	case FSUB: return frombv(Z3_mk_fpa_sub(*Z, rne(), tofp(e->a), tofp(e->b)));
	case FMUL: return frombv(Z3_mk_fpa_mul(*Z, rne(), tofp(e->a), tofp(e->b)));
	case FDIV: return frombv(Z3_mk_fpa_div(*Z, rne(), tofp(e->a), tofp(e->b)));
	// Out of range (undefined in C): as fold() and x86-64 do for 64 bits.
	case FPTOSI: case FPTOUI: {
		bool sg = e->op == FPTOSI; z3::expr x = tofp(e->a); Z3_sort so = e->a->w == 64 ? Z3_mk_fpa_sort_double(*Z) : Z3_mk_fpa_sort_single(*Z);
		z3::expr lo(*Z, Z3_mk_fpa_numeral_double(*Z, sg ? -9223372036854775808.0 : -1.0, so)), hi(*Z, Z3_mk_fpa_numeral_double(*Z, sg ? 9223372036854775808.0 : 18446744073709551616.0, so));
		z3::expr in = z3::expr(*Z, sg ? Z3_mk_fpa_geq(*Z, x, lo) : Z3_mk_fpa_gt(*Z, x, lo)) && z3::expr(*Z, Z3_mk_fpa_lt(*Z, x, hi));
		z3::expr v = z3::ite(in, z3::expr(*Z, sg ? Z3_mk_fpa_to_sbv(*Z, rtz(), x, 64) : Z3_mk_fpa_to_ubv(*Z, rtz(), x, 64)), Z->bv_val((uint64_t) 1 << 63, 64));
		return e->w == 64 ? v : v.extract(e->w - 1, 0); }
	case SITOFP: return frombv(Z3_mk_fpa_to_fp_signed(*Z, rne(), zbv(e->a), e->w == 64 ? Z3_mk_fpa_sort_double(*Z) : Z3_mk_fpa_sort_single(*Z)));
	case UITOFP: return frombv(Z3_mk_fpa_to_fp_unsigned(*Z, rne(), zbv(e->a), e->w == 64 ? Z3_mk_fpa_sort_double(*Z) : Z3_mk_fpa_sort_single(*Z)));
	case FPEXT: return frombv(Z3_mk_fpa_to_fp_float(*Z, rne(), tofp(e->a), Z3_mk_fpa_sort_double(*Z)));
	case FPTRUNC: return frombv(Z3_mk_fpa_to_fp_float(*Z, rne(), tofp(e->a), Z3_mk_fpa_sort_single(*Z)));
	default: return z3::ite(zbool(e), Z->bv_val(1, 1), Z->bv_val(0, 1));
	}
}
static z3::expr zbv(E e) {
	auto it = g_bv.find(e->id); if (it != g_bv.end()) return *it->second;
	z3::expr r = zbvx(e); g_bv[e->id] = new z3::expr(r); return r;
}
enum Sat { UNSAT, SAT, UNKNOWN };
struct CacheEnt { Sat s; vector<std::pair<u32, u64>> m; };
static std::map<vector<u32>, CacheEnt> g_cache;
// Floating-point formulas: most satisfiable ones have a model among a few notable values, found much faster by evaluation than by bit-blasting.
// Only models are found this way; unsatisfiability is always the solver's verdict.
static bool guess(const vector<E> &use, const VarSet &vs, const VarSet &focus, const vector<u64> &model, vector<std::pair<u32, u64>> &out) {
	static const vector<u64> notable = [] { vector<u64> v = {0, 1, 2, 3, 5, 7, 255, 256, 65536, (1ull << 53) + 1, (1ull << 62) + 1, ~0ull, ~0ull - 1, ~0ull - 6, 1ull << 63, (1ull << 63) - 1};
		for (double d : {1.0, -1.0, 0.5, -0.5, 1.5, 2.0, 2.5, -2.5, 3.0, 3.25, 0.1, -0.0, 255.5, 1e10, 1e19, -1e19, 9007199254740993.0, 1e300, -1e300, 5e-324, (double) INFINITY, (double) -INFINITY, (double) NAN}) v.push_back(dbits(d));
		return v; }();
	bool fp = false; for (E e : use) { fp |= e->fp; if (e->uninit) return false; }
	vector<u32> all, f; for (u32 i = 0; i < MAXVARS; i++) { if (vs[i]) all.push_back(i); if (focus[i]) f.push_back(i); }
	if (!fp || f.empty() || f.size() > 3 || all.size() > 12) return false;
	vector<u64> m = model; m.resize(MAXVARS, 0);
	u64 n = 1; for (size_t i = 0; i < f.size(); i++) n *= notable.size();
	if (n > 4000) n = 4000;
	for (u64 k = 0; k < n; k++) {
		u64 r = f.size() > 2 ? k * 2654435761u + 12345 : k;
		for (u32 v : f) { m[v] = notable[r % notable.size()]; r /= notable.size(); }
		++g_stamp; bool ok = true; for (size_t i = use.size(); ok && i--;) ok = evalr(use[i], m) != 0;
		if (ok) { for (u32 v : all) out.push_back({v, m[v]}); return true; }
	}
	return false;
}
// Is pc /\ extra satisfiable?  On SAT, `model` (in: a model of pc; out: of pc /\ extra) is updated.
static Sat solve(const vector<E> &pc, E extra, vector<u64> &model) {
	if (isc(extra)) return extra->k ? SAT : UNSAT;
	VarSet vs = extra->vs; vector<E> use; vector<char> in(pc.size(), 0);
	for (bool ch = true; ch;) { ch = false;
		for (size_t i = 0; i < pc.size(); i++) if (!in[i] && (pc[i]->vs & vs).any()) { in[i] = 1; vs |= pc[i]->vs; ch = true; } }
	vector<u32> key;
	for (size_t i = 0; i < pc.size(); i++) if (in[i]) { use.push_back(pc[i]); key.push_back(pc[i]->id); }
	use.push_back(extra); key.push_back(extra->id);
	std::sort(key.begin(), key.end());
	key.erase(std::unique(key.begin(), key.end()), key.end());
	auto it = g_cache.find(key);
	if (it == g_cache.end()) {
		double t = now(); st_queries++;
		CacheEnt ent;
		if (guess(use, vs, extra->vs, model, ent.m)) ent.s = SAT;
		else try {
			z3::solver s(*Z, "QF_FPBV"); // handles pure BV too
			z3::params p(*Z); p.set("timeout", g_solver_ms); p.set("random_seed", 1u); s.set(p);
			for (E e : use) s.add(zbool(e));
			z3::check_result r = s.check();
			ent.s = r == z3::sat ? SAT : r == z3::unsat ? UNSAT : UNKNOWN;
			if (r == z3::sat) {
				z3::model m = s.get_model();
				for (u32 i = 0; i < MAXVARS; i++) if (vs[i]) {
					z3::expr v = m.eval(Z->bv_const(("v" + std::to_string(i)).c_str(), 64), true);
					uint64_t n = 0; v.is_numeral_u64(n); ent.m.push_back({i, n}); }
				vector<u64> chk(MAXVARS, 0); for (auto &x : ent.m) chk[x.first] = x.second;
				++g_stamp; for (E e : use) if (!e->uninit && !evalr(e, chk)) { ent.s = UNKNOWN; if (getenv("SYMX_DEBUG")) fprintf(stderr, "model check failed\n"); break; }
			}
		} catch (z3::exception &x) { ent.s = UNKNOWN; if (getenv("SYMX_DEBUG")) fprintf(stderr, "z3: %s\n", x.msg()); }
		st_solver += now() - t;
		if (ent.s == UNKNOWN) st_unknown++;
		it = g_cache.emplace(key, ent).first;
	} else st_cached++;
	if (it->second.s == SAT) for (auto &x : it->second.m) { if (model.size() <= x.first) model.resize(x.first + 1, 0); model[x.first] = x.second; }
	return it->second.s;
}

// ---------------------------------------------------------------------------------------------- program
using namespace llvm;
struct Val { u64 c; E e; };
static inline E toE(const Val &v, int w) { return v.e ? v.e : mkc(w, v.c); }
static inline Val fromE(E e) { return isc(e) ? Val{e->k, 0} : Val{0, e}; }
static inline Val cv(u64 x) { return Val{x, 0}; }

struct DFn;
enum IK : u8 { I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_BIN, I_ICMP, I_FBIN, I_FCMP, I_CAST, I_FCAST, I_SELECT, I_CALL, I_ICALL, I_INTR, I_RET, I_BR, I_CBR, I_SWITCH,
	I_UNREACH, I_EXTRACT, I_INSERT, I_FNEG, I_COPY, I_NOP };
struct DI { IK k; u8 op; u8 w, w2; int dst; int a, b, c; u64 imm; u32 n; // operand: >=0 register, <0 constant ~x
	vector<int> ops; vector<u64> imms; DFn *fn; const Instruction *src; };
struct Phi { int dst; u32 n; vector<int> from; };
struct DB { vector<DI> ins; vector<Phi> phis; std::unordered_map<int, int> predIndex; };
struct DFn { string name; const Function *f; bool decoded = false; int nregs = 0; vector<int> argReg; vector<u32> argN; vector<DB> blocks; vector<u64> byval; int ext = -1; u64 insns = 0; bool used = false; };

static LLVMContext Ctx; static std::unique_ptr<Module> M; static const DataLayout *DL;
static vector<DFn *> g_fns; static std::unordered_map<const Function *, DFn *> g_fnmap;
static vector<Val> g_consts; static std::unordered_map<const Value *, int> g_constIdx;
static std::unordered_map<const GlobalVariable *, u64> g_gaddr;
static const u64 FNBASE = 0x7E00000000000000ull; static const int OSHIFT = 28;

struct Obj { int rc = 0; u64 size; u8 kind; bool freed = false, ro = false; vector<u8> d; vector<E> s; };
struct Ref { Obj *p = 0; Ref() {} Ref(Obj *o) : p(o) { if (p) p->rc++; } Ref(const Ref &r) : p(r.p) { if (p) p->rc++; } Ref(Ref &&r) : p(r.p) { r.p = 0; }
	Ref &operator=(Ref r) { std::swap(p, r.p); return *this; } ~Ref() { if (p && --p->rc == 0) delete p; } };
enum { K_HEAP, K_STACK, K_GLOBAL };
struct Frame { DFn *f; int bb, ip, prev; int retReg; u32 retN; vector<Val> r; vector<u32> allocas; };
struct State { vector<E> pc; vector<u64> model; u32 nDraw = 0; vector<Frame> fr; vector<Ref> mem; vector<u32> freeStack; u64 steps = 0; vector<string> reach; vector<Val> obs; u32 forks = 0; bool incomplete = false; };

static const char *K_NAMES[] = {"heap", "stack", "global"};
static int widthOf(Type *t) {
	if (t->isIntegerTy()) { if (t->getIntegerBitWidth() > 64) die("int >64"); return t->getIntegerBitWidth(); }
	if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32;
	string s; raw_string_ostream os(s); t->print(os); die("unsupported type " + os.str());
}
static u32 flatN(Type *t) {
	if (auto *st = dyn_cast<StructType>(t)) { u32 n = 0; for (auto *x : st->elements()) n += flatN(x); return n; }
	if (auto *at = dyn_cast<ArrayType>(t)) return at->getNumElements() * flatN(at->getElementType());
	return 1;
}
static Type *elemTy(Type *t, unsigned i) { if (auto *st = dyn_cast<StructType>(t)) return st->getElementType(i); return cast<ArrayType>(t)->getElementType(); }
static u32 flatOff(Type *t, ArrayRef<unsigned> idx) { u32 o = 0; for (unsigned i : idx) { for (unsigned j = 0; j < i; j++) o += flatN(elemTy(t, j)); t = elemTy(t, i); } return o; }
static void flatList(Type *t, u64 base, vector<std::pair<u64, Type *>> &out) {
	if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flatList(st->getElementType(i), base + sl->getElementOffset(i), out); }
	else if (auto *at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) flatList(at->getElementType(), base + i * es, out); }
	else out.push_back({base, t});
}
static DFn *fnOf(const Function *f) {
	auto it = g_fnmap.find(f); if (it != g_fnmap.end()) return it->second;
	DFn *d = new DFn(); d->name = f->getName().str(); d->f = f; g_fnmap[f] = d; g_fns.push_back(d); return d;
}
static u64 fnAddr(const Function *f) { DFn *d = fnOf(f); for (size_t i = 0; i < g_fns.size(); i++) if (g_fns[i] == d) return FNBASE + i * 16; return 0; }
static u64 constInt(const Constant *c);
static u64 constInt(const Constant *c) {
	if (auto *ci = dyn_cast<ConstantInt>(c)) return ci->getValue().getZExtValue();
	if (auto *cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
	if (isa<ConstantPointerNull>(c)) return 0;
	if (auto *f = dyn_cast<Function>(c)) return fnAddr(f);
	if (auto *g = dyn_cast<GlobalVariable>(c)) { auto it = g_gaddr.find(g); if (it == g_gaddr.end()) die("global " + g->getName().str()); return it->second; }
	if (auto *ga = dyn_cast<GlobalAlias>(c)) return constInt(ga->getAliasee());
	if (auto *ce = dyn_cast<ConstantExpr>(c)) {
		switch (ce->getOpcode()) {
		case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::ZExt: return constInt(ce->getOperand(0));
		case Instruction::Trunc: return constInt(ce->getOperand(0)) & maskw(ce->getType()->getIntegerBitWidth());
		case Instruction::Sub: return constInt(ce->getOperand(0)) - constInt(ce->getOperand(1));
		case Instruction::Add: return constInt(ce->getOperand(0)) + constInt(ce->getOperand(1));
		case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) die("const gep"); return constInt(ce->getOperand(0)) + off.getSExtValue(); }
		default: die(string("constexpr ") + ce->getOpcodeName());
		}
	}
	if (isa<ConstantAggregateZero>(c)) return 0;
	string s; raw_string_ostream os(s); c->print(os); die("constant " + os.str());
}
static void initBytes(Obj *o, u64 off, const Constant *c) {
	Type *t = c->getType();
	if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
	if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { u64 es = DL->getTypeAllocSize(cd->getElementType());
		for (unsigned i = 0; i < cd->getNumElements(); i++) initBytes(o, off + i * es, cd->getElementAsConstant(i)); return; }
	if (isa<ConstantStruct>(c) || isa<ConstantArray>(c)) {
		for (unsigned i = 0; i < c->getNumOperands(); i++) {
			u64 eo = isa<StructType>(t) ? DL->getStructLayout(cast<StructType>(t))->getElementOffset(i).getFixedValue() : i * DL->getTypeAllocSize(elemTy(t, i)).getFixedValue();
			initBytes(o, off + eo, cast<Constant>(c->getOperand(i))); }
		return; }
	u64 v = constInt(c); memcpy(&o->d[off], &v, DL->getTypeStoreSize(t));
}
static int constOperand(const Constant *c) { // single scalar
	auto it = g_constIdx.find(c); if (it != g_constIdx.end()) return it->second;
	Val v = isa<UndefValue>(c) ? Val{0, intern(UNINIT, widthOf(c->getType()), 1, 0, 0, 0)} : cv(constInt(c));
	g_consts.push_back(v); int r = ~(int)(g_consts.size() - 1); g_constIdx[c] = r; return r;
}
static int rawConst(u64 v) { g_consts.push_back(cv(v)); return ~(int)(g_consts.size() - 1); }

struct Decoder {
	DFn *d; std::unordered_map<const Value *, int> reg; std::unordered_map<const BasicBlock *, int> bb;
	int opnd(const Value *v) { if (auto *c = dyn_cast<Constant>(v)) return constOperand(c); return reg.at(v); }
	vector<int> opndN(const Value *v) { vector<int> r; u32 n = flatN(v->getType());
		if (auto *c = dyn_cast<Constant>(v)) {
			if (n == 1 && !v->getType()->isAggregateType()) { r.push_back(constOperand(c)); return r; }
			for (u32 i = 0; i < n; i++) { if (isa<ConstantAggregateZero>(c)) r.push_back(rawConst(0)); else if (isa<UndefValue>(c)) { vector<std::pair<u64, Type *>> fl; flatList(v->getType(), 0, fl);
				g_consts.push_back(Val{0, intern(UNINIT, widthOf(fl[i].second), 1, 0, 0, 0)}); r.push_back(~(int)(g_consts.size() - 1)); }
				else r.push_back(constOperand(c->getAggregateElement(i))); }
			return r; }
		int b = reg.at(v); for (u32 i = 0; i < n; i++) r.push_back(b + i); return r; }
	void run(DFn *dd);
};
static int extId(const string &n);
void Decoder::run(DFn *dd) {
	d = dd; const Function &F = *d->f; int nr = 0;
	for (auto &A : F.args()) { u32 n = flatN(A.getType()); reg[&A] = nr; d->argReg.push_back(nr); d->argN.push_back(n); nr += n;
		d->byval.push_back(A.hasByValAttr() ? DL->getTypeAllocSize(A.getParamByValType()).getFixedValue() : 0); }
	int nb = 0;
	for (auto &B : F) { bb[&B] = nb++; for (auto &I : B) if (!I.getType()->isVoidTy()) { reg[&I] = nr; nr += flatN(I.getType()); } }
	d->nregs = nr; d->blocks.resize(nb);
	for (auto &B : F) {
		DB &db = d->blocks[bb[&B]];
		vector<const BasicBlock *> preds;
		for (auto &I : B) {
			DI x{}; x.dst = -1; x.src = &I; x.fn = 0;
			if (!I.getType()->isVoidTy()) x.dst = reg[&I];
			if (auto *P = dyn_cast<PHINode>(&I)) {
				if (db.predIndex.empty()) for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { db.predIndex[bb[P->getIncomingBlock(i)]] = i; preds.push_back(P->getIncomingBlock(i)); }
				Phi ph; ph.dst = x.dst; ph.n = flatN(P->getType());
				if (ph.n != 1) die("aggregate phi");
				for (unsigned i = 0; i < preds.size(); i++) ph.from.push_back(opnd(P->getIncomingValueForBlock(preds[i])));
				db.phis.push_back(ph); continue;
			}
			switch (I.getOpcode()) {
			case Instruction::Alloca: { auto &A = cast<AllocaInst>(I); x.k = I_ALLOCA; x.imm = DL->getTypeAllocSize(A.getAllocatedType()); x.a = opnd(A.getArraySize()); break; }
			case Instruction::Load: { x.k = I_LOAD; x.a = opnd(I.getOperand(0)); Type *t = I.getType();
				if (t->isAggregateType()) { vector<std::pair<u64, Type *>> fl; flatList(t, 0, fl); x.n = fl.size(); for (auto &p : fl) { x.imms.push_back(p.first); x.imms.push_back(widthOf(p.second)); } }
				else { x.n = 1; x.w = widthOf(t); } break; }
			case Instruction::Store: { x.k = I_STORE; x.a = opnd(I.getOperand(1)); Type *t = I.getOperand(0)->getType();
				if (t->isAggregateType()) { vector<std::pair<u64, Type *>> fl; flatList(t, 0, fl); x.n = fl.size(); x.ops = opndN(I.getOperand(0)); for (auto &p : fl) { x.imms.push_back(p.first); x.imms.push_back(widthOf(p.second)); } }
				else { x.n = 1; x.w = widthOf(t); x.b = opnd(I.getOperand(0)); } break; }
			case Instruction::GetElementPtr: { auto *G = cast<GEPOperator>(&I); x.k = I_GEP; x.a = opnd(G->getPointerOperand()); x.imm = 0;
				for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) { Value *idx = gi.getOperand();
					if (StructType *st = gi.getStructTypeOrNull()) x.imm += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
					else { u64 sz = DL->getTypeAllocSize(gi.getIndexedType());
						if (auto *ci = dyn_cast<ConstantInt>(idx)) x.imm += ci->getSExtValue() * sz;
						else { x.ops.push_back(opnd(idx)); x.imms.push_back(sz); x.imms.push_back(widthOf(idx->getType())); } } }
				break; }
			case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
			case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: {
				x.k = I_BIN; x.w = widthOf(I.getType()); x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1));
				switch (I.getOpcode()) { case Instruction::Add: x.op = ADD; break; case Instruction::Sub: x.op = SUB; break; case Instruction::Mul: x.op = MUL; break;
				case Instruction::UDiv: x.op = UDIV; break; case Instruction::SDiv: x.op = SDIV; break; case Instruction::URem: x.op = UREM; break; case Instruction::SRem: x.op = SREM; break;
				case Instruction::Shl: x.op = SHL; break; case Instruction::LShr: x.op = LSHR; break; case Instruction::AShr: x.op = ASHR; break;
				case Instruction::And: x.op = AND; break; case Instruction::Or: x.op = OR; break; default: x.op = XOR; }
				break; }
			case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
				x.k = I_FBIN; x.w = widthOf(I.getType()); x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1));
				x.op = I.getOpcode() == Instruction::FAdd ? FADD : I.getOpcode() == Instruction::FSub ? FSUB : I.getOpcode() == Instruction::FMul ? FMUL : I.getOpcode() == Instruction::FDiv ? FDIV : FREM; break;
			case Instruction::FNeg: x.k = I_FNEG; x.w = widthOf(I.getType()); x.a = opnd(I.getOperand(0)); break;
			case Instruction::ICmp: x.k = I_ICMP; x.w = widthOf(I.getOperand(0)->getType()); x.op = cast<ICmpInst>(I).getPredicate(); x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); break;
			case Instruction::FCmp: x.k = I_FCMP; x.w = widthOf(I.getOperand(0)->getType()); x.op = cast<FCmpInst>(I).getPredicate(); x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); break;
			case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
			case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
				x.a = opnd(I.getOperand(0)); x.w2 = widthOf(I.getOperand(0)->getType()); x.w = widthOf(I.getType()); x.k = I_FCAST;
				switch (I.getOpcode()) { case Instruction::SExt: x.k = I_CAST; x.op = SEXT; break; case Instruction::Trunc: x.k = I_CAST; x.op = EXTRACT; break;
				case Instruction::FPToSI: x.op = FPTOSI; break; case Instruction::FPToUI: x.op = FPTOUI; break; case Instruction::SIToFP: x.op = SITOFP; break; case Instruction::UIToFP: x.op = UITOFP; break;
				case Instruction::FPExt: x.op = FPEXT; break; case Instruction::FPTrunc: x.op = FPTRUNC; break;
				default: x.k = I_CAST; x.op = x.w >= x.w2 ? ZEXT : EXTRACT; }
				break; }
			case Instruction::Freeze: x.k = I_COPY; x.ops = opndN(I.getOperand(0)); break;
			case Instruction::Select: x.k = I_SELECT; x.w = widthOf(I.getType()); x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); x.c = opnd(I.getOperand(2)); break;
			case Instruction::ExtractValue: { auto &X = cast<ExtractValueInst>(I); x.k = I_COPY; auto v = opndN(X.getAggregateOperand()); u32 o = flatOff(X.getAggregateOperand()->getType(), X.getIndices()), n = flatN(I.getType());
				for (u32 i = 0; i < n; i++) x.ops.push_back(v[o + i]); break; }
			case Instruction::InsertValue: { auto &X = cast<InsertValueInst>(I); x.k = I_COPY; x.ops = opndN(X.getAggregateOperand()); auto v = opndN(X.getInsertedValueOperand()); u32 o = flatOff(I.getType(), X.getIndices());
				for (u32 i = 0; i < v.size(); i++) x.ops[o + i] = v[i]; break; }
			case Instruction::Br: { auto &X = cast<BranchInst>(I); if (X.isConditional()) { x.k = I_CBR; x.a = opnd(X.getCondition()); x.b = bb[X.getSuccessor(0)]; x.c = bb[X.getSuccessor(1)]; } else { x.k = I_BR; x.b = bb[X.getSuccessor(0)]; } break; }
			case Instruction::Switch: { auto &X = cast<SwitchInst>(I); x.k = I_SWITCH; x.a = opnd(X.getCondition()); x.w = widthOf(X.getCondition()->getType()); x.b = bb[X.getDefaultDest()];
				for (auto &cs : X.cases()) { x.imms.push_back(cs.getCaseValue()->getZExtValue()); x.ops.push_back(bb[cs.getCaseSuccessor()]); } break; }
			case Instruction::Ret: { x.k = I_RET; if (I.getNumOperands()) x.ops = opndN(I.getOperand(0)); break; }
			case Instruction::Unreachable: x.k = I_UNREACH; break;
			case Instruction::Call: { auto &C = cast<CallInst>(I);
				if (isa<DbgInfoIntrinsic>(C)) continue;
				const Function *cf = dyn_cast<Function>(C.getCalledOperand()->stripPointerCasts());
				x.w = (I.getType()->isVoidTy() || I.getType()->isAggregateType()) ? 0 : widthOf(I.getType());
				x.n = I.getType()->isVoidTy() ? 0 : flatN(I.getType());
				if (cf && cf->isIntrinsic()) {
					auto id = cf->getIntrinsicID();
					if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::stacksave || id == Intrinsic::stackrestore || id == Intrinsic::experimental_noalias_scope_decl) { x.k = I_NOP; break; }
				}
				for (auto &A : C.args()) { auto v = opndN(A.get()); x.imms.push_back(v.size()); x.imms.push_back(A->getType()->isAggregateType() ? 0 : widthOf(A->getType())); x.ops.insert(x.ops.end(), v.begin(), v.end()); }
				if (cf && cf->isIntrinsic()) { x.k = I_INTR; x.imm = cf->getIntrinsicID(); break; }
				if (cf) { x.k = I_CALL; x.fn = fnOf(cf); } else { x.k = I_ICALL; x.a = opnd(C.getCalledOperand()); }
				break; }
			default: die(string("instruction ") + I.getOpcodeName());
			}
			db.ins.push_back(std::move(x));
		}
	}
	d->decoded = true;
}

// ---------------------------------------------------------------------------------------------- execution
struct Viol { string kind, msg, where, stack; vector<u64> in; };
static vector<Viol> g_viols; static std::set<string> g_violKeys;
struct PathRec { vector<u64> in; vector<string> reach; vector<u64> obs; };
static vector<PathRec> g_paths;
static u64 st_paths = 0, st_steps = 0, st_forks = 0, st_killed = 0, st_incomplete = 0, st_asserts = 0, st_assertq = 0, st_depthmax = 0, st_concretize = 0;
static std::map<string, u64> g_reach;
static u64 g_maxSteps = 30000000; static double g_maxTime = 120, g_t0; static u64 g_maxPaths = 1000000; static size_t g_keep = 40;
static vector<State *> g_work;
static u64 g_concLimit = 1u << 20;

static string where(const Instruction *i) {
	if (!i) return "?";
	string r; if (auto &l = i->getDebugLoc()) { auto *s = l->getScope(); r = s->getFilename().str() + ":" + std::to_string(l.getLine()); }
	return r + " (" + i->getFunction()->getName().str() + ")";
}
struct Ex {
	State *S; Frame *F; const DI *I; bool dead;
	inline Val get(int o) { return o >= 0 ? F->r[o] : g_consts[~o]; }
	void viol(const char *kind, const string &msg, const vector<u64> *m = 0) {
		string w = where(I->src); string key = string(kind) + "|" + w + "|" + msg;
		if (!g_violKeys.insert(key).second) return;
		Viol v; v.kind = kind; v.msg = msg; v.where = w; v.in = m ? *m : S->model; v.in.resize(S->nDraw, 0);
		for (size_t i = S->fr.size(); i-- > 0;) { auto &f = S->fr[i]; auto &ins = f.f->blocks[f.bb].ins; int ip = f.ip; if (i + 1 != S->fr.size()) ip--; if (ip < 0) ip = 0; v.stack += where(ins[std::min((size_t)ip, ins.size() - 1)].src) + " <- "; if (v.stack.size() > 1500) break; }
		g_viols.push_back(v);
	}
	void kill(const char *kind, const string &msg, const vector<u64> *m = 0) { viol(kind, msg, m); dead = true; }
	State *fork() { State *n = new State(*S); st_forks++; S->forks++; g_work.push_back(n); return n; }
	// Make v concrete.  Forks a sibling for the remaining values (which re-executes the instruction).
	bool conc(int o, int w, u64 &out) {
		Val v = get(o);
		if (!v.e) { out = v.c; return true; }
		if (v.e->uninit) { kill("uninit", "use of an uninitialised value as an address, length or callee"); return false; }
		u64 x = eval(v.e, S->model); st_concretize++;
		E eq = mk(EQ, 1, v.e, mkc(w, x)); vector<u64> m = S->model;
		Sat s = solve(S->pc, mknot(eq), m);
		if (s == UNKNOWN) { S->incomplete = true; }
		if (s == SAT) { State *n = fork(); n->pc.push_back(mknot(eq)); n->model = m; }
		S->pc.push_back(eq);
		if (o >= 0) F->r[o] = cv(x);
		out = x; return true;
	}
	Obj *find(u64 addr, u64 &off, const char *what, u64 size) {
		u64 id = (addr >> OSHIFT); off = addr & ((1ull << OSHIFT) - 1);
		if (addr < (1ull << OSHIFT)) { kill("null", string(what) + (addr < 4096 ? " through a null pointer" : " through a wild pointer")); return 0; }
		id--;
		if (id >= S->mem.size() || !S->mem[id].p) { kill("wild", string(what) + " through a wild or dangling pointer"); return 0; }
		Obj *o = S->mem[id].p;
		if (o->freed) { kill("uaf", string(what) + " of a freed " + K_NAMES[o->kind] + " object"); return 0; }
		if (off + size > o->size) { kill("oob", string(what) + " of " + std::to_string(size) + " bytes at offset " + std::to_string(off >= (1ull << (OSHIFT - 1)) ? (i64)off - (1ll << OSHIFT) : (i64)off) + " of a " + std::to_string(o->size) + "-byte " + K_NAMES[o->kind] + " object"); return 0; }
		return o;
	}
	Obj *wr(u64 addr) { Ref &r = S->mem[(addr >> OSHIFT) - 1]; if (r.p->rc > 1) { Obj *n = new Obj(*r.p); n->rc = 0; r = Ref(n); } return r.p; }
	u64 alloc(u64 size, u8 kind) {
		Obj *o = new Obj(); o->size = size; o->kind = kind; 
		o->d.assign(size, 0);
		if (kind != K_GLOBAL) { static E un = intern(UNINIT, 8, 0, 0, 0, 0); o->s.assign(size, un); }
		u64 id;
		if (kind == K_STACK && !S->freeStack.empty()) { id = S->freeStack.back(); S->freeStack.pop_back(); S->mem[id] = Ref(o); }
		else { id = S->mem.size(); S->mem.push_back(Ref(o)); }
		return (id + 1) << OSHIFT;
	}
	static void clearSym(Obj *) {}
	Val rd(Obj *o, u64 off, int nbytes, int w) {
		bool sym = false;
		if (!o->s.empty()) for (int i = 0; i < nbytes; i++) if (o->s[off + i]) { sym = true; break; }
		if (!sym) { u64 v = 0; memcpy(&v, &o->d[off], nbytes); return cv(v & maskw(w)); }
		E r = 0;
		// all-uninitialised fast path
		bool allun = true; for (int i = 0; i < nbytes; i++) { E b = o->s[off + i]; if (!b || b->op != UNINIT) { allun = false; break; } }
		if (allun) return Val{0, intern(UNINIT, w, 0, 0, 0, 0)};
		for (int i = nbytes; i-- > 0;) { E b = o->s[off + i] ? o->s[off + i] : mkc(8, o->d[off + i]); r = r ? mkconcat(r, b) : b; }
		if (w < r->w) r = mkextract(r, 0, w);
		return fromE(r);
	}
	void wrv(Obj *o, u64 off, int nbytes, int w, Val v) {
		if (!v.e) { u64 x = v.c; memcpy(&o->d[off], &x, nbytes); if (!o->s.empty()) for (int i = 0; i < nbytes; i++) o->s[off + i] = 0; return; }
		if (o->s.empty()) o->s.assign(o->size, (E)0);
		E e = v.e; if (w < nbytes * 8) e = mk(ZEXT, nbytes * 8, e);
		for (int i = 0; i < nbytes; i++) {
			E b = e->op == UNINIT ? intern(UNINIT, 8, 0, 0, 0, 0) : mkextract(e, i * 8, 8);
			if (isc(b)) { o->d[off + i] = b->k; o->s[off + i] = 0; } else o->s[off + i] = b; }
	}
	bool load(u64 a, int w, Val &out) { u64 off; int nb = (w + 7) / 8; Obj *o = find(a, off, "read", nb); if (!o) return false; out = rd(o, off, nb, w); return true; }
	bool store(u64 a, int w, Val v) { u64 off; int nb = (w + 7) / 8; Obj *o = find(a, off, "write", nb); if (!o) return false; if (o->ro) { kill("readonly", "write to a constant object"); return false; } wrv(wr(a), off, nb, w, v); return true; }
	bool copy(u64 dst, u64 src, u64 n) {
		if (!n) return true; u64 so, dof; Obj *s = find(src, so, "read", n); if (!s) return false; Obj *d = find(dst, dof, "write", n); if (!d) return false;
		if (d->ro) { kill("readonly", "write to a constant object"); return false; }
		d = wr(dst); u64 o2; s = find(src, o2, "read", n);
		memmove(&d->d[dof], &s->d[so], n);
		if (s->s.empty() && d->s.empty()) return true;
		if (d->s.empty()) d->s.assign(d->size, (E)0);
		if (s->s.empty()) std::fill(d->s.begin() + dof, d->s.begin() + dof + n, (E)0);
		else memmove(&d->s[dof], &s->s[so], n * sizeof(E));
		return true;
	}
	void jump(int bb) {
		DB &B = F->f->blocks[bb];
		if (!B.phis.empty()) {
			int pi = B.predIndex.at(F->bb); Val tmp[64]; vector<Val> big; Val *t = tmp; if (B.phis.size() > 64) { big.resize(B.phis.size()); t = big.data(); }
			for (size_t i = 0; i < B.phis.size(); i++) t[i] = get(B.phis[i].from[pi]);
			for (size_t i = 0; i < B.phis.size(); i++) F->r[B.phis[i].dst] = t[i];
		}
		F->prev = F->bb; F->bb = bb; F->ip = 0;
	}
	void enter(DFn *f, const DI *call) {
		if (!f->decoded) { Decoder d; d.run(f); }
		f->used = true;
		if (S->fr.size() > 3000) { kill("stack", "call depth exceeds 3000 frames"); return; }
		if (S->fr.size() > st_depthmax) st_depthmax = S->fr.size();
		Frame n; n.f = f; n.bb = 0; n.ip = 0; n.prev = -1; n.retReg = call ? call->dst : -1; n.retN = call ? call->n : 0; n.r.assign(f->nregs, cv(0));
		if (call) { size_t p = 0; size_t na = std::min(f->argReg.size(), call->imms.size() / 2);
			for (size_t i = 0; i < na; i++) { u32 cnt = call->imms[2 * i]; for (u32 j = 0; j < cnt; j++) n.r[f->argReg[i] + j] = get(call->ops[p + j]);
				if (f->byval[i]) { u64 src; if (!conc(call->ops[p], 64, src)) return; u64 a = alloc(f->byval[i], K_STACK); n.allocas.push_back((a >> OSHIFT) - 1); if (!copy(a, src, f->byval[i])) return; n.r[f->argReg[i]] = cv(a); }
				p += cnt; } }
		S->fr.push_back(std::move(n)); F = &S->fr.back();
	}
	void setDst(Val v) { if (I->dst >= 0) F->r[I->dst] = v; }
	bool branchOn(E c, int w) { (void)w; return false; }
	// returns: 1 true, 0 false, -1 path died. Forks the other side (the sibling takes branch `!r` by callback).
	void cbr(E c, int tb, int fb) {
		if (c->uninit) { kill("uninit", "branch on an uninitialised value"); return; }
		bool t = eval(c, S->model); E taken = t ? c : mknot(c), other = mknot(taken); vector<u64> m = S->model;
		Sat s = solve(S->pc, other, m);
		if (s == UNKNOWN) S->incomplete = true;
		if (s == SAT) { State *n = fork(); n->pc.push_back(other); n->model = m; Ex x{n, &n->fr.back(), I, false}; x.jump(t ? fb : tb); S->pc.push_back(taken); }
		jump(t ? tb : fb);
	}
	bool ext(DFn *f); 
	void intr();
	void step(); void run();
	string cstr(u64 a) { string r; u64 off; for (;;) { Obj *o = find(a, off, "read", 1); if (!o) return r; if (!o->s.empty() && o->s[off]) return r + "<sym>"; char c = o->d[off]; if (!c) return r; r += c; a++; } }
	void assertE(E c, const string &msg) {
		st_asserts++;
		if (isc(c)) { if (!c->k) { kill("assert", msg); } return; }
		if (c->uninit) { kill("uninit", "assertion on an uninitialised value: " + msg); return; }
		st_assertq++;
		vector<u64> m = S->model; Sat s;
		if (!eval(c, S->model)) s = SAT; else s = solve(S->pc, mknot(c), m);
		if (s == UNKNOWN) S->incomplete = true;
		if (s == SAT) { viol("assert", msg, &m); vector<u64> m2 = S->model; if (eval(c, m2) || solve(S->pc, c, m2) == SAT) { S->pc.push_back(c); S->model = m2; } else dead = true; return; }
	}
};
enum { X_NONE, X_DRAW, X_ASSUME, X_ASSERT, X_REACH, X_OBS, X_CONC, X_MALLOC, X_CALLOC, X_REALLOC, X_FREE, X_MEMCPY, X_MEMSET, X_MEMCMP, X_STRLEN, X_PRINT, X_ABORT, X_EXIT, X_USABLE, X_HEAPOBJ, X_PICK, X_SAMEBITS };
static int extId(const string &n) {
	static std::map<string, int> t = {{"vt_draw", X_DRAW}, {"vt_assume_", X_ASSUME}, {"vt_assert_", X_ASSERT}, {"vt_reach", X_REACH}, {"vt_observe", X_OBS}, {"vt_concrete", X_CONC},
		{"malloc", X_MALLOC}, {"calloc", X_CALLOC}, {"realloc", X_REALLOC}, {"free", X_FREE}, {"memcpy", X_MEMCPY}, {"memmove", X_MEMCPY}, {"memset", X_MEMSET}, {"memcmp", X_MEMCMP},
		{"strlen", X_STRLEN}, {"printf", X_PRINT}, {"puts", X_PRINT}, {"putchar", X_PRINT}, {"fprintf", X_PRINT}, {"fflush", X_PRINT}, {"abort", X_ABORT}, {"exit", X_EXIT}, {"_exit", X_EXIT},
		{"vt_same_bits_", X_SAMEBITS}};
	auto it = t.find(n); return it == t.end() ? X_NONE : it->second;
}
bool Ex::ext(DFn *f) {
	if (f->ext < 0) { f->ext = extId(f->name); if (f->ext == X_NONE && f->f->isDeclaration()) die("unmodelled external " + f->name); }
	const DI *c = I; auto arg = [&](int i) { return c->ops[i]; }; u64 a, b, n;
	switch (f->ext) {
	case X_NONE: return false;
	case X_DRAW: { u32 k = S->nDraw++; if (k >= MAXVARS) die("too many draws"); if (S->model.size() <= k) S->model.resize(k + 1, 0); setDst(Val{0, intern(VAR, 64, k, 0, 0, 0)}); return true; }
	case X_ASSUME: { E e = mknot(mk(EQ, 1, toE(get(arg(0)), 32), mkc(32, 0)));
		if (isc(e)) { if (!e->k) { dead = true; st_killed++; } return true; }
		if (e->uninit) { kill("uninit", "assume on uninitialised"); return true; }
		if (!eval(e, S->model)) { Sat s = solve(S->pc, e, S->model); if (s != SAT) { if (s == UNKNOWN) { S->incomplete = true; st_incomplete++; } dead = true; st_killed++; return true; } }
		S->pc.push_back(e); return true; }
	case X_ASSERT: { E e = mknot(mk(EQ, 1, toE(get(arg(0)), 32), mkc(32, 0))); assertE(e, cstr(get(arg(1)).c)); return true; }
	case X_REACH: { S->reach.push_back(cstr(get(arg(0)).c)); return true; }
	case X_OBS: S->obs.push_back(get(arg(0))); return true;
	case X_CONC: { u64 v; if (!conc(arg(0), 64, v)) return true; setDst(cv(v)); return true; }
	case X_SAMEBITS: return false;
	case X_MALLOC: if (!conc(arg(0), 64, a)) return true; if (a > (1ull << (OSHIFT - 1))) { setDst(cv(0)); return true; } setDst(cv(alloc(a, K_HEAP))); return true;
	case X_CALLOC: { if (!conc(arg(0), 64, a) || !conc(arg(1), 64, b)) return true; u64 p = alloc(a * b, K_HEAP); Obj *o = wr(p); o->s.clear(); setDst(cv(p)); return true; }
	case X_FREE: case X_REALLOC: {
		if (!conc(arg(0), 64, a)) return true;
		if (f->ext == X_REALLOC && !conc(arg(1), 64, n)) return true;
		if (f->ext == X_REALLOC && !a) { setDst(cv(n > (1ull << (OSHIFT - 1)) ? 0 : alloc(n, K_HEAP))); return true; }
		if (!a) return true;
		u64 id = (a >> OSHIFT) - 1; if (a < (1ull << OSHIFT) || id >= S->mem.size() || !S->mem[id].p) { kill("badfree", "free of a wild pointer"); return true; }
		Obj *o = S->mem[id].p;
		if (o->freed) { kill("doublefree", "double free"); return true; }
		if (o->kind != K_HEAP || (a & ((1ull << OSHIFT) - 1))) { kill("badfree", "free of a pointer that is not the start of a heap object"); return true; }
		if (f->ext == X_REALLOC) { if (n > (1ull << (OSHIFT - 1))) { setDst(cv(0)); return true; } u64 p = alloc(n, K_HEAP); if (!copy(p, a, std::min(n, S->mem[id].p->size))) return true; setDst(cv(p)); }
		Obj *t = new Obj(); t->size = S->mem[id].p->size; t->kind = K_HEAP; t->freed = true; S->mem[id] = Ref(t); return true; }
	case X_MEMCPY: if (!conc(arg(0), 64, a) || !conc(arg(1), 64, b) || !conc(arg(2), 64, n)) return true; if (!copy(a, b, n)) return true; setDst(cv(a)); return true;
	case X_MEMSET: { if (!conc(arg(0), 64, a) || !conc(arg(2), 64, n)) return true; if (n) { u64 off; Obj *o = find(a, off, "write", n); if (!o) return true; o = wr(a); Val v = get(arg(1));
		if (v.e) { E e = mkextract(v.e, 0, 8); for (u64 i = 0; i < n; i++) wrv(o, off + i, 1, 8, fromE(e)); } else { memset(&o->d[off], (int)v.c, n); if (!o->s.empty()) std::fill(o->s.begin() + off, o->s.begin() + off + n, (E)0); } } setDst(cv(a)); return true; }
	case X_MEMCMP: { if (!conc(arg(0), 64, a) || !conc(arg(1), 64, b) || !conc(arg(2), 64, n)) return true; E r = mkc(32, 0); u64 o1, o2; if (!n) { setDst(cv(0)); return true; }
		Obj *x = find(a, o1, "read", n); if (!x) return true; Obj *y = find(b, o2, "read", n); if (!y) return true;
		for (u64 i = n; i-- > 0;) { E p = toE(rd(x, o1 + i, 1, 8), 8), q = toE(rd(y, o2 + i, 1, 8), 8); r = mk(ITE, 32, mk(EQ, 1, p, q), r, mk(ITE, 32, mk(ULT, 1, p, q), mkc(32, ~0ull), mkc(32, 1))); }
		setDst(fromE(r)); return true; }
	case X_STRLEN: { if (!conc(arg(0), 64, a)) return true; u64 i = 0, off; for (;; i++) { Obj *o = find(a + i, off, "read", 1); if (!o) return true; if (!o->s.empty() && o->s[off]) die("symbolic strlen"); if (!o->d[off]) break; } setDst(cv(i)); return true; }
	case X_PRINT: setDst(cv(0)); return true;
	case X_ABORT: kill("abort", "abort called"); return true;
	case X_EXIT: dead = true; return true;
	}
	return false;
}
void Ex::intr() {
	auto id = (Intrinsic::ID)I->imm; u64 a, b, n; auto &o = I->ops;
	switch (id) {
	case Intrinsic::memcpy: case Intrinsic::memmove: if (!conc(o[0], 64, a) || !conc(o[1], 64, b) || !conc(o[2], 64, n)) return; copy(a, b, n); return;
	case Intrinsic::memset: { if (!conc(o[0], 64, a) || !conc(o[2], 64, n)) return; if (!n) return; u64 off; Obj *x = find(a, off, "write", n); if (!x) return; x = wr(a); Val v = get(o[1]);
		if (v.e) for (u64 i = 0; i < n; i++) wrv(x, off + i, 1, 8, v); else { memset(&x->d[off], (int)v.c, n); if (!x->s.empty()) std::fill(x->s.begin() + off, x->s.begin() + off + n, (E)0); } return; }
	case Intrinsic::fabs: { Val v = get(o[0]); setDst(fromE(mk(AND, I->w, toE(v, I->w), mkc(I->w, maskw(I->w - 1))))); return; }
	case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: { E x = toE(get(o[0]), I->w), y = toE(get(o[1]), I->w);
		E c = (id == Intrinsic::umax || id == Intrinsic::umin) ? mk(ULT, 1, x, y) : mk(SLT, 1, x, y); bool mx = id == Intrinsic::umax || id == Intrinsic::smax; setDst(fromE(mx ? mk(ITE, I->w, c, y, x) : mk(ITE, I->w, c, x, y))); return; }
	case Intrinsic::fmuladd: { E x = toE(get(o[0]), I->w), y = toE(get(o[1]), I->w), z = toE(get(o[2]), I->w); setDst(fromE(mk(FADD, I->w, mk(FMUL, I->w, x, y), z))); return; }
	case Intrinsic::expect: setDst(get(o[0])); return;
	case Intrinsic::trap: kill("trap", "trap"); return;
	case Intrinsic::is_fpclass: default: die("intrinsic " + Intrinsic::getBaseName(id).str());
	}
}
void Ex::step() {
	const DI &x = *I;
	switch (x.k) {
	case I_NOP: F->ip++; return;
	case I_ALLOCA: { u64 n; if (!conc(x.a, 64, n)) return; u64 p = alloc(x.imm * n, K_STACK); F->allocas.push_back((p >> OSHIFT) - 1); F->r[x.dst] = cv(p); F->ip++; return; }
	case I_LOAD: { u64 a; if (!conc(x.a, 64, a)) return; if (x.imms.empty()) { Val v; if (!load(a, x.w, v)) return; F->r[x.dst] = v; } else for (u32 i = 0; i < x.n; i++) { Val v; if (!load(a + x.imms[2 * i], x.imms[2 * i + 1], v)) return; F->r[x.dst + i] = v; } F->ip++; return; }
	case I_STORE: { u64 a; if (!conc(x.a, 64, a)) return; if (x.imms.empty()) { if (!store(a, x.w, get(x.b))) return; } else for (u32 i = 0; i < x.n; i++) if (!store(a + x.imms[2 * i], x.imms[2 * i + 1], get(x.ops[i]))) return; F->ip++; return; }
	case I_GEP: { Val p = get(x.a); E e = p.e; u64 c = p.c + x.imm;
		for (size_t i = 0; i < x.ops.size(); i++) { Val v = get(x.ops[i]); u64 sz = x.imms[2 * i]; int w = x.imms[2 * i + 1];
			if (!v.e) c += (u64)sx(v.c, w) * sz; else { E t = mk(MUL, 64, mk(SEXT, 64, v.e), mkc(64, sz)); e = e ? mk(ADD, 64, e, t) : t; } }
		if (!e) F->r[x.dst] = cv(c); else F->r[x.dst] = fromE(mk(ADD, 64, e, mkc(64, p.e ? c - p.c : c)));
		F->ip++; return; }
	case I_BIN: { Val a = get(x.a), b = get(x.b); int w = x.w;
		if (x.op >= UDIV && x.op <= SREM) {
			if (b.e && b.e->uninit) { kill("uninit", "division by an uninitialised value"); return; }
			E z = mk(EQ, 1, toE(b, w), mkc(w, 0)); vector<u64> m = S->model;
			Sat s = solve(S->pc, z, m); if (s == UNKNOWN) S->incomplete = true;
			if (s == SAT) { viol("div0", "integer division by zero", &m); if (isc(z)) { dead = true; return; } vector<u64> m2 = S->model; if (solve(S->pc, mknot(z), m2) != SAT) { dead = true; return; } S->model = m2; S->pc.push_back(mknot(z)); }
			if (x.op == SDIV || x.op == SREM) { E ov = mk(AND, 1, mk(EQ, 1, toE(b, w), mkc(w, ~0ull)), mk(EQ, 1, toE(a, w), mkc(w, 1ull << (w - 1)))); vector<u64> m3 = S->model;
				s = solve(S->pc, ov, m3); if (s == UNKNOWN) S->incomplete = true;
				if (s == SAT) { viol("divoverflow", "integer division overflow (minimum value by -1)", &m3); if (isc(ov)) { dead = true; return; } vector<u64> m2 = S->model; if (solve(S->pc, mknot(ov), m2) != SAT) { dead = true; return; } S->model = m2; S->pc.push_back(mknot(ov)); } }
		}
		if (!a.e && !b.e) F->r[x.dst] = cv(fold((Op)x.op, w, 0, w, a.c, b.c, 0)); else F->r[x.dst] = fromE(mk((Op)x.op, w, toE(a, w), toE(b, w))); F->ip++; return; }
	case I_FBIN: { Val a = get(x.a), b = get(x.b); if (!a.e && !b.e) F->r[x.dst] = cv(foldfp((Op)x.op, x.w, a.c, b.c)); else F->r[x.dst] = fromE(mk((Op)x.op, x.w, toE(a, x.w), toE(b, x.w))); F->ip++; return; }
	case I_FNEG: { Val a = get(x.a); F->r[x.dst] = fromE(mk(XOR, x.w, toE(a, x.w), mkc(x.w, 1ull << (x.w - 1)))); F->ip++; return; }
	case I_ICMP: { Val a = get(x.a), b = get(x.b); int w = x.w;
		if (!a.e && !b.e) { bool r; i64 p = sx(a.c, w), q = sx(b.c, w); switch (x.op) { case CmpInst::ICMP_EQ: r = a.c == b.c; break; case CmpInst::ICMP_NE: r = a.c != b.c; break;
			case CmpInst::ICMP_ULT: r = a.c < b.c; break; case CmpInst::ICMP_ULE: r = a.c <= b.c; break; case CmpInst::ICMP_UGT: r = a.c > b.c; break; case CmpInst::ICMP_UGE: r = a.c >= b.c; break;
			case CmpInst::ICMP_SLT: r = p < q; break; case CmpInst::ICMP_SLE: r = p <= q; break; case CmpInst::ICMP_SGT: r = p > q; break; default: r = p >= q; } F->r[x.dst] = cv(r); }
		else { E p = toE(a, w), q = toE(b, w), r; switch (x.op) { case CmpInst::ICMP_EQ: r = mk(EQ, 1, p, q); break; case CmpInst::ICMP_NE: r = mknot(mk(EQ, 1, p, q)); break;
			case CmpInst::ICMP_ULT: r = mk(ULT, 1, p, q); break; case CmpInst::ICMP_ULE: r = mk(ULE, 1, p, q); break; case CmpInst::ICMP_UGT: r = mk(ULT, 1, q, p); break; case CmpInst::ICMP_UGE: r = mk(ULE, 1, q, p); break;
			case CmpInst::ICMP_SLT: r = mk(SLT, 1, p, q); break; case CmpInst::ICMP_SLE: r = mk(SLE, 1, p, q); break; case CmpInst::ICMP_SGT: r = mk(SLT, 1, q, p); break; default: r = mk(SLE, 1, q, p); } F->r[x.dst] = fromE(r); }
		F->ip++; return; }
	case I_FCMP: { E p = toE(get(x.a), x.w), q = toE(get(x.b), x.w), r; E un = 0;
		switch (x.op) { case CmpInst::FCMP_FALSE: r = mkc(1, 0); break; case CmpInst::FCMP_TRUE: r = mkc(1, 1); break;
		case CmpInst::FCMP_OEQ: r = mk(FEQ, 1, p, q); break; case CmpInst::FCMP_OLT: r = mk(FLT, 1, p, q); break; case CmpInst::FCMP_OLE: r = mk(FLE, 1, p, q); break;
		case CmpInst::FCMP_OGT: r = mk(FLT, 1, q, p); break; case CmpInst::FCMP_OGE: r = mk(FLE, 1, q, p); break;
		case CmpInst::FCMP_UNE: r = mknot(mk(FEQ, 1, p, q)); break; case CmpInst::FCMP_ULT: r = mknot(mk(FLE, 1, q, p)); break; case CmpInst::FCMP_ULE: r = mknot(mk(FLT, 1, q, p)); break;
		case CmpInst::FCMP_UGT: r = mknot(mk(FLE, 1, p, q)); break; case CmpInst::FCMP_UGE: r = mknot(mk(FLT, 1, p, q)); break;
		case CmpInst::FCMP_UNO: r = mk(FUNO, 1, p, q); break; case CmpInst::FCMP_ORD: r = mknot(mk(FUNO, 1, p, q)); break;
		case CmpInst::FCMP_ONE: r = mk(OR, 1, mk(FLT, 1, p, q), mk(FLT, 1, q, p)); break; default: r = mk(OR, 1, mk(FEQ, 1, p, q), mk(FUNO, 1, p, q)); }
		(void)un; F->r[x.dst] = fromE(r); F->ip++; return; }
	case I_CAST: { Val a = get(x.a); if (!a.e) F->r[x.dst] = cv(x.op == SEXT ? (u64)sx(a.c, x.w2) & maskw(x.w) : a.c & maskw(x.w)); else F->r[x.dst] = fromE(x.op == EXTRACT ? mkextract(a.e, 0, x.w) : mk((Op)x.op, x.w, a.e)); F->ip++; return; }
	case I_FCAST: { Val a = get(x.a); F->r[x.dst] = fromE(mk((Op)x.op, x.w, toE(a, x.w2))); F->ip++; return; }
	case I_SELECT: { Val a = get(x.a); if (!a.e) F->r[x.dst] = a.c ? get(x.b) : get(x.c); else { if (a.e->uninit) { kill("uninit", "select on an uninitialised value"); return; } F->r[x.dst] = fromE(mk(ITE, x.w, a.e, toE(get(x.b), x.w), toE(get(x.c), x.w))); } F->ip++; return; }
	case I_COPY: { if (x.ops.size() == 1) F->r[x.dst] = get(x.ops[0]); else { vector<Val> t; for (int o : x.ops) t.push_back(get(o)); for (size_t i = 0; i < t.size(); i++) F->r[x.dst + i] = t[i]; } F->ip++; return; }
	case I_BR: jump(x.b); return;
	case I_CBR: { Val a = get(x.a); if (!a.e) jump(a.c ? x.b : x.c); else cbr(a.e, x.b, x.c); return; }
	case I_SWITCH: { Val a = get(x.a);
		if (!a.e) { for (size_t i = 0; i < x.imms.size(); i++) if (x.imms[i] == a.c) { jump(x.ops[i]); return; } jump(x.b); return; }
		if (a.e->uninit) { kill("uninit", "switch on an uninitialised value"); return; }
		u64 v = eval(a.e, S->model); E mine; int tgt = -1; E def = mkc(1, 1);
		for (size_t i = 0; i < x.imms.size(); i++) { E q = mk(EQ, 1, a.e, mkc(x.w, x.imms[i])); def = mk(AND, 1, def, mknot(q)); if (x.imms[i] == v) { tgt = x.ops[i]; mine = q; } }
		auto other = [&](E q, int bb) { vector<u64> m = S->model; Sat s = solve(S->pc, q, m); if (s == UNKNOWN) S->incomplete = true; if (s == SAT) { State *n = fork(); n->pc.push_back(q); n->model = m; Ex y{n, &n->fr.back(), I, false}; y.jump(bb); } };
		for (size_t i = 0; i < x.imms.size(); i++) if (x.imms[i] != v) other(mk(EQ, 1, a.e, mkc(x.w, x.imms[i])), x.ops[i]);
		if (tgt >= 0) other(def, x.b); else { tgt = x.b; mine = def; }
		if (!isc(mine)) S->pc.push_back(mine); jump(tgt); return; }
	case I_CALL: { DFn *f = x.fn; if (f->f->isDeclaration() || f->ext > 0) { if (ext(f)) { if (!dead) F->ip++; return; } } F->ip++; enter(f, &x); return; }
	case I_ICALL: { u64 a; if (!conc(x.a, 64, a)) return; if (a < FNBASE || (a - FNBASE) % 16 || (a - FNBASE) / 16 >= g_fns.size()) { kill("badcall", "call through a pointer that is not a function"); return; }
		DFn *f = g_fns[(a - FNBASE) / 16]; if (f->f->isDeclaration()) { if (ext(f)) { if (!dead) F->ip++; return; } } F->ip++; enter(f, &x); return; }
	case I_INTR: intr(); if (!dead) F->ip++; return;
	case I_RET: { vector<Val> v; for (int o : x.ops) v.push_back(get(o)); int rr = F->retReg; u32 rn = F->retN;
		for (u32 id : F->allocas) { S->mem[id] = Ref(); S->freeStack.push_back(id); }
		S->fr.pop_back();
		if (S->fr.empty()) { F = 0; return; }
		F = &S->fr.back(); if (rr >= 0) for (u32 i = 0; i < std::min((u32)v.size(), rn); i++) F->r[rr + i] = v[i];
		return; }
	case I_UNREACH: kill("unreachable", "unreachable executed"); return;
	default: die("step");
	}
}
void Ex::run() {
	u64 start = S->steps;
	for (;;) {
		if (!F) break;
		I = &F->f->blocks[F->bb].ins[F->ip];
		S->steps++; 
		if (S->steps > g_maxSteps) { kill("hang", "path exceeds the step limit of " + std::to_string(g_maxSteps) + " instructions"); }
		else step();
		if (dead) break;
		if ((S->steps & 0xfff) == 0 && now() - g_t0 > g_maxTime) { S->incomplete = true; dead = true; st_incomplete++; break; }
	}
	st_steps += S->steps - start;
}
static string js(const string &s) { string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((u8)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", (u8)c); r += b; } else r += c; } return r + "\""; }
static string jv(const vector<u64> &v) { string r = "["; for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += std::to_string(v[i]); } return r + "]"; }

int main(int argc, char **argv) {
	string file, entry, out;
	for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { if (++i >= argc) die("args"); return string(argv[i]); };
		if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--max-time") g_maxTime = atof(nx().c_str()); else if (a == "--max-steps") g_maxSteps = strtoull(nx().c_str(), 0, 10);
		else if (a == "--max-paths") g_maxPaths = strtoull(nx().c_str(), 0, 10); else if (a == "--solver-ms") g_solver_ms = atoi(nx().c_str()); else if (a == "--keep") g_keep = atoi(nx().c_str()); else file = a; }
	SMDiagnostic err; M = parseIRFile(file, err, Ctx); if (!M) { err.print("symx", errs()); return 3; }
	DL = &M->getDataLayout(); z3::context zc; Z = &zc;
	g_t0 = now();
	State *S0 = new State(); Ex e0{S0, 0, 0, false};
	for (auto &g : M->globals()) { u64 sz = DL->getTypeAllocSize(g.getValueType()); g_gaddr[&g] = e0.alloc(sz, K_GLOBAL); }
	for (auto &F : *M) fnOf(&F);
	for (auto &g : M->globals()) if (g.hasInitializer()) { Obj *o = S0->mem[(g_gaddr[&g] >> OSHIFT) - 1].p; initBytes(o, 0, g.getInitializer()); if (g.isConstant()) o->ro = true; }
	Function *ef = M->getFunction(entry); if (!ef || ef->isDeclaration()) die("no entry " + entry);
	e0.S = S0; e0.enter(fnOf(ef), 0);
	g_work.push_back(S0);
	bool timeout = false;
	while (!g_work.empty()) {
		if (now() - g_t0 > g_maxTime || st_paths >= g_maxPaths) { timeout = true; break; }
		State *S = g_work.back(); g_work.pop_back();
		Ex x{S, &S->fr.back(), 0, false};
		x.run();
		if (!x.dead) {
			st_paths++;
			for (auto &r : S->reach) g_reach[r]++;
			if (S->incomplete) st_incomplete++;
			// keep a spread of completed paths for replay on the real build
			if (g_paths.size() < g_keep || (st_paths * 2654435761u >> 7) % (st_paths / g_keep + 1) == 0) {
				PathRec p; p.in = S->model; p.in.resize(S->nDraw, 0); p.reach = S->reach; for (auto &v : S->obs) p.obs.push_back(v.e ? (v.e->uninit ? 0 : eval(v.e, S->model)) : v.c);
				if (g_paths.size() < g_keep) g_paths.push_back(p); else g_paths[(st_paths * 40503u) % g_keep] = p;
			}
		} else if (S->incomplete) st_incomplete++;
		delete S;
	}
	string o = "{";
	auto num = [&](const char *k, double v) { char b[96]; snprintf(b, 96, "\"%s\":%.6g,", k, v); o += b; };
	auto inum = [&](const char *k, u64 v) { o += string("\"") + k + "\":" + std::to_string(v) + ","; };
	inum("paths", st_paths); inum("forks", st_forks); inum("assumed_away", st_killed); inum("steps", st_steps); inum("queries", st_queries); inum("cached_queries", st_cached); inum("unknown", st_unknown); num("solver_s", st_solver);
	inum("incomplete_paths", st_incomplete); inum("pending", g_work.size()); inum("asserts", st_asserts); inum("assert_queries", st_assertq); inum("max_depth", st_depthmax); inum("concretisations", st_concretize); o += string("\"timeout\":") + (timeout ? "true," : "false,"); num("wall_s", now() - g_t0);
	o += "\"functions\":["; bool f1 = true; for (auto *f : g_fns) if (f->used) { if (!f1) o += ","; f1 = false; o += js(f->name); } o += "],";
	o += "\"reach\":{"; f1 = true; for (auto &r : g_reach) { if (!f1) o += ","; f1 = false; o += js(r.first) + ":" + std::to_string(r.second); } o += "},";
	o += "\"violations\":["; f1 = true; for (auto &v : g_viols) { if (!f1) o += ","; f1 = false; o += "{\"kind\":" + js(v.kind) + ",\"msg\":" + js(v.msg) + ",\"where\":" + js(v.where) + ",\"stack\":" + js(v.stack) + ",\"inputs\":" + jv(v.in) + "}"; } o += "],";
	o += "\"path_samples\":["; f1 = true; for (auto &p : g_paths) { if (!f1) o += ","; f1 = false; o += "{\"inputs\":" + jv(p.in) + ",\"observed\":" + jv(p.obs) + ",\"reach\":["; bool f2 = true; for (auto &r : p.reach) { if (!f2) o += ","; f2 = false; o += js(r); } o += "]}"; } o += "]}\n";
	FILE *fo = out.empty() ? stdout : fopen(out.c_str(), "w"); fputs(o.c_str(), fo); if (fo != stdout) fclose(fo);
	fflush(stdout); _Exit(0);
}
