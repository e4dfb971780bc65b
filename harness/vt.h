/* Engine-neutral harness interface.  The same harness source is
   - executed symbolically (VT_SYMX: clang IR + engine/symx; VT_CBMC: cbmc), where vt_draw() is an arbitrary value;
   - compiled natively with sanitizers (VT_NATIVE), where vt_draw() replays a solver model. */
#ifndef VT_H
#define VT_H
typedef unsigned long vt_u64;
typedef long vt_i64;

#if defined(VT_CBMC)
unsigned long nondet_ulong(void);
static unsigned long vt_ndraw = 0;
static unsigned long vt_draw(void) {
	unsigned long vt_v = nondet_ulong();
	__CPROVER_input("vt", vt_ndraw, vt_v);
	vt_ndraw++;
	return vt_v;
}
#define VT_ASSERT(c, m) __CPROVER_assert((c), "VT " m)
#define VT_ASSUME(c) __CPROVER_assume(c)
#define VT_REACH(name) __CPROVER_assert(0, "REACH " name)
#define VT_OBSERVE(x) ((void) (x))
#else
unsigned long vt_draw(void);
void vt_assume_(int c);
void vt_assert_(int c, const char *m);
void vt_reach(const char *m);
void vt_observe(unsigned long x);
#define VT_ASSERT(c, m) vt_assert_(!!(c), m)
#define VT_ASSUME(c) vt_assume_(!!(c))
#define VT_REACH(name) vt_reach(name)
#define VT_OBSERVE(x) vt_observe((unsigned long) (x))
#endif
/* Explore each value of x separately (symx); identity elsewhere. */
#if defined(VT_SYMX)
unsigned long vt_concrete(unsigned long x);
#else
#define vt_concrete(x) ((unsigned long) (x))
#endif

/* An arbitrary value in [lo, hi]. */
static long vt_range(long lo, long hi) {
	long v = (long) vt_draw();
	VT_ASSUME(v >= lo && v <= hi);
	return v;
}
/* An arbitrary value in [0, n), one path per value. */
static unsigned long vt_pick(unsigned long n) {
	unsigned long v = vt_draw();
	VT_ASSUME(v < n);
	return vt_concrete(v);
}
static unsigned char vt_byte(void) { return (unsigned char) vt_draw(); }
static double vt_double(void) { union { unsigned long u; double d; } x; x.u = vt_draw(); return x.d; }
static unsigned long vt_dbits(double d) { union { unsigned long u; double d; } x; x.d = d; return x.u; }
#endif
