/* Implementation of the hooks guarded by NUJEL_VERIFY: lets a program choose
 * the safepoints at which the garbage collector runs and makes every use of a
 * freed cell fail. */
#include "nujel-private.h"
#include <stdio.h>
#include <malloc.h>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#else
#define __asan_poison_memory_region(p, s)
#define __asan_unpoison_memory_region(p, s)
#endif

enum { modeOff, modeAt, modeEvery };
static int mode = modeOff;
static i64 at[4] = {-1, -1, -1, -1};
static i64 count = 0;
static i64 forced = 0;

void lVerifySafepoint(lThread *ctx) {
	const i64 n = count++;
	if (mode == modeOff) { return; }
	if (mode == modeEvery || n == at[0] || n == at[1] || n == at[2] || n == at[3]) {
		forced++;
		lGarbageCollect(ctx);
	}
}

static int isSymbol(void *cell) {
	return (char *)cell >= (char *)lSymbolList && (char *)cell < (char *)&lSymbolList[SYM_MAX];
}

void lVerifyAllocated(void *cell, size_t size) {
	__asan_unpoison_memory_region(cell, size);
}

void lVerifyFreed(void *cell, size_t size) {
	if (isSymbol(cell)) {
		/* the link of the free list comes first, the end marks it as free */
		char *c = cell;
		memset(c + sizeof(void *), '~', size - sizeof(void *) - 1);
		return;
	}
	__asan_poison_memory_region(cell, size);
}

/* (verify/arm a b): collect at the a-th and the b-th safepoint from here on,
 * (verify/arm :every): at all of them */
static lVal arm(lVal a, lVal b) {
	count = 0;
	forced = 0;
	at[0] = at[1] = -1;
	mode = modeAt;
	if (a.type == ltKeyword) { mode = modeEvery; return NIL; }
	if (a.type == ltInt) { at[0] = a.vInt; }
	if (b.type == ltInt) { at[1] = b.vInt; }
	if (at[0] < 0 && at[1] < 0) { mode = modeOff; }
	return NIL;
}

static lVal getCount() { return lValInt(count); }
static lVal getForced() { return lValInt(forced); }

static lVal disarm() {
	mode = modeOff;
	return NIL;
}

/* the number of cells in use per heap */
static lVal heap() {
	lVal ret = NIL;
	#define defineAllocator(T, TMAX) ret = lCons(lValInt(T##Active), ret);
	allocatorTypes()
	#undef defineAllocator
	ret = lCons(lValInt(lSymbolActive), ret);
	return ret;
}

/* collect right now is not possible (no thread at hand): a program passes a
 * safepoint with (verify/arm 0 -1) first, then compares with these two */
static uint before[16];
static lVal baseline() {
	uint n = 0;
	#define defineAllocator(T, TMAX) before[n++] = T##Active;
	allocatorTypes()
	defineAllocator(lSymbol, SYM_MAX)
	#undef defineAllocator
	return NIL;
}

static lVal growth() {
	uint n = 0;
	i64 grown[16];
	#define defineAllocator(T, TMAX) grown[n] = (i64)T##Active - (i64)before[n]; n++;
	allocatorTypes()
	defineAllocator(lSymbol, SYM_MAX)
	#undef defineAllocator
	lVal ret = NIL;
	while (n > 0) { ret = lCons(lValInt(grown[--n]), ret); }
	return ret;
}

/* the cells the collector still reaches can't be freed ones, and what is not in
 * use has to be on the list of free cells exactly once */
static lVal consistent() {
	#define defineAllocator(T, TMAX) {\
		uint n = 0;\
		for (T *c = T##FFree; c != NULL;) {\
			if (++n > T##Max) { return lValString("cycle in the free list of " #T); }\
			if (T##MarkMap[c - T##List] != 2) { return lValString("cell in use is in the free list of " #T); }\
			__asan_unpoison_memory_region(c, sizeof(T));\
			T *next = c->nextFree;\
			__asan_poison_memory_region(c, sizeof(T));\
			c = next;\
		}\
		if (n + T##Active != T##Max) { return lValString("lost cells of " #T); }\
	}
	allocatorTypes()
	#undef defineAllocator
	return lValBool(true);
}

/* bytes in use outside of the heaps of cells (run with the caches of malloc off) */
static lVal memory() {
	const struct mallinfo2 m = mallinfo2();
	return lValInt(m.uordblks + m.hblkhd);
}

void lVerifyInit() {
	lAddNativeFunc("verify/memory", "()", "", memory, 0);
	lAddNativeFunc("verify/baseline", "()", "", baseline, 0);
	lAddNativeFunc("verify/growth", "()", "", growth, 0);
	lAddNativeFunc("verify/consistent", "()", "", consistent, 0);
	lAddNativeFuncVV("verify/arm", "(a b)", "", arm, 0);
	lAddNativeFunc("verify/count", "()", "", getCount, 0);
	lAddNativeFunc("verify/forced", "()", "", getForced, 0);
	lAddNativeFunc("verify/disarm", "()", "", disarm, 0);
	lAddNativeFunc("verify/heap", "()", "", heap, 0);
}
