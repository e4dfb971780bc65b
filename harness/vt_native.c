/* Native replay runtime: reads the recorded draws, exits 42 on a failed assertion, 77 on a failed assumption. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <dlfcn.h>
static unsigned long *vals; static size_t n, at;
static void load(void) {
	static int done; if (done) return; done = 1;
	const char *p = getenv("VT_INPUT"); FILE *f = p ? fopen(p, "r") : NULL; if (!f) return;
	unsigned long v; while (fscanf(f, "%lu", &v) == 1) { vals = realloc(vals, (n + 1) * sizeof *vals); vals[n++] = v; }
	fclose(f);
}
unsigned long vt_draw(void) { load(); unsigned long v = at < n ? vals[at] : 0; at++; return v; }
void vt_assume_(int c) { if (!c) { printf("VT-ASSUME-FAILED\n"); fflush(stdout); _Exit(77); } }
void vt_assert_(int c, const char *m) { if (!c) { printf("VT-ASSERT-FAILED %s\n", m); fflush(stdout); _Exit(42); } }
void vt_reach(const char *m) { printf("VT-REACH %s\n", m); }
void vt_observe(unsigned long x) { printf("VT-OBS %lu\n", x); }
int main(void) {
	void (*f)(void) = (void (*)(void)) dlsym(RTLD_DEFAULT, getenv("VT_ENTRY_NAME"));
	if (!f) { printf("no entry\n"); return 99; }
	f(); printf("VT-END\n"); fflush(stdout); _Exit(0);
}
