/* Interposed below the library's allocator: counts live blocks and can make the k-th allocation fail. */
#ifndef VT_ALLOC_H
#define VT_ALLOC_H
#include <stdlib.h>
extern long vt_live;           /* blocks currently allocated */
extern long vt_allocs;         /* allocation calls so far */
extern long vt_fail_at;        /* index of the allocation call that fails; -1: none */
extern long vt_failed;         /* that call was made */
#undef malloc
#undef realloc
#undef free
void *vt_malloc(size_t n);
void *vt_realloc(void *p, size_t n);
void vt_free(void *p);
#define malloc vt_malloc
#define realloc vt_realloc
#define free vt_free
#endif
