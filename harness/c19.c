/* The portable allocator (DuckLib/memory.c with USE_DUCKLIB_MALLOC): blocks are inside the arena, disjoint, keep their contents; refusals have no effect; freed memory is reusable. */
#include "vt.h"
#include "DuckLib/core.h"
#include "DuckLib/memory.h"
#include <stdlib.h>
#include <string.h>
#ifndef OPS
#define OPS 5
#endif
#define SLOTS 3
static dl_memoryAllocation_t ma;
static unsigned char *arena;
static dl_size_t arena_size;
static struct { unsigned char *p; dl_size_t n; unsigned char seed; } slot[SLOTS];
static void fill(int s, dl_size_t from) { for (dl_size_t i = from; i < slot[s].n; i++) slot[s].p[i] = (unsigned char) (slot[s].seed + i); }
/* Everything that must hold between two operations. */
static void healthy(void) {
	unsigned char *table = (unsigned char *) ma.blockList;
	dl_size_t table_n = ma.blockList_length * sizeof(dl_memoryBlock_t);
	VT_ASSERT(table >= arena && table + table_n <= arena + arena_size, "the table is in the arena");
	dl_size_t total = table_n, used;
	for (int i = 0; i < SLOTS; i++) {
		if (!slot[i].p) continue;
		unsigned char *p = slot[i].p; dl_size_t n = slot[i].n;
		VT_ASSERT(p >= arena && p + n <= arena + arena_size, "a block is in the arena");
		VT_ASSERT((p - arena) % DL_ALIGNMENT == 0, "a block is aligned");
		VT_ASSERT(p + n <= table || table + table_n <= p, "a block and the table do not overlap");
		for (int j = 0; j < i; j++) if (slot[j].p) VT_ASSERT(p + n <= slot[j].p || slot[j].p + slot[j].n <= p, "blocks do not overlap");
		for (dl_size_t k = 0; k < n; k++) VT_ASSERT(p[k] == (unsigned char) (slot[i].seed + k), "a block keeps its contents");
		total += n;
	}
	dl_memory_usage(&used, ma);
	VT_ASSERT(used >= total && used <= arena_size, "the usage is at least what is allocated");
}
static dl_size_t size_of(unsigned long k) { static const dl_size_t sizes[] = {1, 8, 40, 120, 400}; return sizes[k]; }
static void op(unsigned long nsizes) {
	unsigned long s = vt_pick(SLOTS), what = slot[s].p ? vt_pick(1 + nsizes) : 1 + vt_pick(nsizes);
	/* Empty slots are interchangeable. */
	if (!slot[s].p) for (unsigned long i = 0; i < s; i++) VT_ASSUME(slot[i].p);
	void *p = slot[s].p;
	if (what == 0) {
		VT_ASSERT(!dl_free(&ma, &p), "a block can be freed");
		VT_ASSERT(!p, "the pointer is cleared");
		slot[s].p = NULL;
		return;
	}
	dl_size_t n = size_of(what - 1), old = p ? slot[s].n : 0;
	dl_error_t e = p ? dl_realloc(&ma, &p, n) : dl_malloc(&ma, &p, n);
	if (e) {
		VT_ASSERT(e == dl_error_outOfMemory, "a refusal says that memory is exhausted");
		VT_ASSERT(p == slot[s].p, "a refusal leaves the pointer");
		VT_REACH("refused");
		return;
	}
	VT_ASSERT(p, "a block");
	if (!slot[s].p) slot[s].seed = vt_byte();
	slot[s].p = p; slot[s].n = n;
	for (dl_size_t k = 0; k < (old < n ? old : n); k++) VT_ASSERT(slot[s].p[k] == (unsigned char) (slot[s].seed + k), "a resized block keeps its contents");
	fill((int) s, 0);
}
static void start(dl_size_t n, unsigned long fit) {
	arena = malloc(arena_size = n);
	memset(&ma, 0, sizeof ma);
	VT_ASSERT(!dl_memory_init(&ma, arena, n, (dl_memoryFit_t) fit), "the allocator starts");
}
static void end(int fits) {
	for (int i = 0; i < SLOTS; i++) if (slot[i].p) {
		void *p = slot[i].p, *q = p;
		VT_ASSERT(!dl_free(&ma, &p) && !p, "a block can be freed");
		slot[i].p = NULL;
		VT_ASSERT(dl_free(&ma, &q) == dl_error_danglingPointer, "a block is freed once");
		healthy();
	}
	dl_size_t used;
	dl_memory_usage(&used, ma);
	VT_ASSERT(used == ma.blockList_length * sizeof(dl_memoryBlock_t), "everything is free");
	/* Nothing gets lost. */
	void *p = NULL;
	for (int i = 0; fits && i < 12; i++) {
		VT_ASSERT(!dl_malloc(&ma, &p, 8), "freed memory can be used again");
		VT_ASSERT(!dl_free(&ma, &p), "a block can be freed");
	}
	dl_memory_quit(&ma);
	free(arena);
}
/* @q configs=portable max=250 reach=end,refused | every sequence of 5 allocations, resizings and releases of up to 3 blocks of 3 sizes, in arenas of 4 sizes, all fits */
void h_sequence(void) {
	static const dl_size_t sizes[] = {200, 280, 400, 720};
	unsigned long a = vt_pick(4), fit = vt_pick(4);
	start(sizes[a], fit);
	for (int i = 0; i < OPS; i++) { op(3); healthy(); }
	end(1);
	VT_REACH("end");
}
/* @q configs=portable tier=thorough tmax=780 defs=OPS=6 reach=end,refused | every sequence of 6 operations in an arena of 280 bytes, first and best fit */
void h_sequence_long(void) {
	start(280, vt_pick(2));
	for (int i = 0; i < OPS; i++) { op(3); healthy(); }
	end(1);
	VT_REACH("end");
}

/* @q configs=portable reach=end,small | one allocation and one resizing of every size above the arena's, up to the largest number, with two blocks allocated; arenas of 1 to 400 bytes */
void h_limits(void) {
	unsigned long n = 1 + vt_pick(400), what = vt_pick(3), huge;
	int fits = 0;
	arena = malloc(arena_size = n);
	memset(&ma, 0, sizeof ma);
	if (dl_memory_init(&ma, arena, n, dl_memoryFit_best)) { VT_REACH("small"); free(arena); return; }
	VT_ASSERT(n >= 2 * sizeof(dl_memoryBlock_t), "the arena holds the table");
	for (int i = 0; i < 2; i++) {
		void *p = NULL;
		if (!dl_malloc(&ma, &p, 24)) { fits = 1; slot[i].p = p; slot[i].n = 24; slot[i].seed = (unsigned char) (i + 1); fill(i, 0); }
		healthy();
	}
	huge = vt_draw();
	VT_ASSUME(huge >= n);
	void *p = what < 2 ? slot[what].p : NULL, *q = p;
	VT_ASSERT((p ? dl_realloc(&ma, &p, huge) : dl_malloc(&ma, &p, huge)) == dl_error_outOfMemory, "what does not fit is refused");
	VT_ASSERT(p == q, "a refusal leaves the pointer");
	healthy();
	end(fits);
	VT_REACH("end");
}
