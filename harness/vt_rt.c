#include <stdlib.h>
long vt_live = 0, vt_allocs = 0, vt_fail_at = -1, vt_failed = 0;
size_t vt_largest = 0;         /* size of the largest block asked for */
#ifdef VT_NATIVE
void __attribute__((weak)) __sanitizer_print_stack_trace(void);
#endif
static int fails(void) {
	long n = vt_allocs++;
	if (vt_fail_at == -1 || n != vt_fail_at) return 0;
	vt_fail_at = -1;
	vt_failed = 1;
#ifdef VT_NATIVE
	if (getenv("VT_SHOW") && __sanitizer_print_stack_trace) __sanitizer_print_stack_trace();
#endif
	return 1;
}
void *vt_malloc(size_t n) {
	if (fails()) return NULL;
	if (n > vt_largest) vt_largest = n;
	void *p = malloc(n);
	if (p) vt_live++;
	return p;
}
void *vt_realloc(void *p, size_t n) {
	if (fails()) return NULL;
	if (n > vt_largest) vt_largest = n;
	void *q = realloc(p, n);
	if (!p && q) vt_live++;
	return q;
}
void vt_free(void *p) {
	if (p) vt_live--;
	free(p);
}
#ifdef VT_SYMX
/* libc functions a change may come to use. */
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char) *a - (unsigned char) *b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char) *a - (unsigned char) *b; if (!*a) return 0; } return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char) c) return (char *) s; if (!*s) return 0; } }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (; n; n--, p++) if (*p == (unsigned char) c) return (void *) p; return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)); return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
#endif
