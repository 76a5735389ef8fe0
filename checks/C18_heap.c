// The allocator as the rest of the implementation sees it, for C18.cpp
#include "core.h"
#include "opt/gc.h"
#include <stdlib.h>
#include <string.h>
typedef uint64_t U;
static struct Blk { U at, sz; int used; } *blk; static U nblk, cblk;
static void add(Value* x, int used) { if (nblk==cblk) { cblk = cblk? cblk*2 : 4096; blk = realloc(blk, cblk*sizeof *blk); } blk[nblk++] = (struct Blk){(U)(size_t)x, mm_size(x), used}; }
static void addUsed(Value* x) { add(x, 1); }
static void addFree(Value* x) { add(x, 0); }
static int cmpB(const void* a, const void* b) { U x = ((struct Blk*)a)->at, y = ((struct Blk*)b)->at; return x<y? -1 : x>y; }
// an object of sz bytes in all; 0: out of memory
void* hp_new(U sz) {
  if (CATCH) { freeThrown(); return NULL; }
  void* r;
  { ux ia = sz-offsetof(TyArr,a); Arr* a = m_arr(sz, t_i8arr, ia); arr_shVec(a); r = a; }
  popCatch(); return r;
}
void hp_free(void* p) { ptr_dec((Arr*)p); }
void* hp_data(void* p) { return ((TyArr*)p)->a; }
U hp_usable(void* p) { return mm_sizeUsable((Value*)p); }
U hp_size(void* p) { return mm_size((Value*)p); }
U hp_ia(void* p) { return ((Arr*)p)->ia; }
int hp_type(void* p) { return ((Value*)p)->type==t_i8arr; }
U hp_alloc(void) { return mm_heapAlloc; }
U hp_used(void) { return tot_heapUsed(); }
U hp_max(void) { return mm_heapMax; }
void hp_setmax(U m) { mm_heapMax = m; }
void hp_gc(void) { gc_forceGC(false); }
// walks the heap: 0 if the blocks tile it; *used: bytes in used blocks; *biggest: size of the largest free block
int hp_walk(void** live, U n, U* used, U* freeB, U* biggest, U* why) {
  nblk = 0; mm_forHeap(addUsed); U nu = nblk; mm_forFreedHeap(addFree); (void)nu;
  qsort(blk, nblk, sizeof *blk, cmpB); U tot = 0; *used = *freeB = *biggest = 0;
  for (U i = 0; i < nblk; i++) { tot+= blk[i].sz; if (blk[i].used) *used+= blk[i].sz; else { *freeB+= blk[i].sz; if (blk[i].sz>*biggest) *biggest = blk[i].sz; } if (i && blk[i-1].at+blk[i-1].sz>blk[i].at) { *why = i; return 1; } }
  if (tot!=mm_heapAlloc) { *why = tot; return 2; }
  for (U i = 0; i < n; i++) { U l = 0, h = nblk, a = (U)(size_t)live[i]; while (l<h) { U m = (l+h)/2; if (blk[m].at<a) l = m+1; else h = m; } if (l==nblk || blk[l].at!=a) { *why = i; return 3; } if (!blk[l].used) { *why = i; return 4; } }
  return 0;
}
