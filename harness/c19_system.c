/* The portable allocator under the compiler and the VM: an exhausted arena is reported, and everything is returned at the end. */
#define VT_SRCMAX 512
#include "vt_dl.h"
static dl_size_t usage(void) { dl_size_t n; dl_memory_usage(&n, MA); return n; }
static const char *const programs[] = {
	"(+ 1 2)",
	"((var a (in0)) (defun f (x) (* x a)) (f 3))",
	"((var l (list 1 (quote b) \"cde\")) (vector l (substring \"abc\" 1 2)))",
	"((defmacro m (a) (list (quote +) a 1)) (m (in0)))",
	"(concat",
};
#define PROGRAMS 5
static dl_size_t attempt(dl_size_t arena, unsigned long p, int *done) {
	dl_error_t e = dl_error_ok;
	*done = 0;
	vt_inputs[0] = vI(4);
	vt_n = 0;
	memset(&MA, 0, sizeof MA); memset(&DLC, 0, sizeof DLC); memset(&VM, 0, sizeof VM);
	ARENA = malloc(arena);
	if (!(e = dl_memory_init(&MA, ARENA, arena, dl_memoryFit_best))) {
		if (!(e = duckLisp_init(&DLC, &MA, 100))) {
			if (!(e = duckVM_init(&VM, &MA, 100))) {
				if (!(e = vt_link("in0", vt_cb0, "()"))) {
					e = vt_do(programs[p]);
					if (!e) {
						*done = 1;
						if (p == 0 || p == 1 || p == 3) VT_ASSERT(vt_same(vt_top(&VM), vI(p == 0 ? 3 : p == 1 ? 12 : 5)), "the value");
					}
				}
				duckVM_quit(&VM);
			}
			duckLisp_quit(&DLC);
		}
	}
	return MA.max_used;
}
/* @q configs=portable max=200 reach=end | 4 programs and a wrong one: after the compiler and the VM are gone, all memory is free */
void h_returned(void) {
	unsigned long p = vt_pick(PROGRAMS);
	int done;
	attempt(1 << 20, p, &done);
	VT_ASSERT(done == (p != 4), "the program runs");
	if (p != 4) VT_ASSERT(usage() == MA.blockList_length * sizeof(dl_memoryBlock_t), "everything is freed at quit");
	free(ARENA);
	VT_REACH("end");
}

#ifndef TINY
#define TINY 120
#define STEP 360
#define ROUNDS 40
#endif
/* @q configs=portable max=400 reach=end,full,fits tdefs=TINY=1800,STEP=24,ROUNDS=200 | 4 programs and a wrong one in arenas of 40 sizes around the place where they begin to fit, and one of them in 120 sizes of 200 to 43400 bytes: success, or an error, and an end without a failure */
void h_exhausted(void) {
	unsigned long p = vt_pick(PROGRAMS), part, k;
	int done;
	dl_size_t most = attempt(1 << 20, p, &done);
	free(ARENA);
	part = vt_pick(2); k = part ? vt_pick(ROUNDS) : p ? 0 : vt_pick(TINY);
	dl_size_t n = part ? most - 5 * 8 * ROUNDS + 8 * 8 * k : 200 + STEP * k;
	attempt(n, p, &done);
	if (done) VT_REACH("fits");
	else if (p != 4) VT_REACH("full");
	free(ARENA);
	VT_REACH("end");
}
