// C interface between the checks (C++) and the implementation under test.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef uint64_t BV; // a BQN value, owned unless said otherwise

enum { CK_NUM, CK_CHR, CK_ARR, CK_FUN, CK_MD1, CK_MD2, CK_NSP, CK_OTHER };
enum { CE_BIT, CE_I8, CE_I16, CE_I32, CE_F64, CE_C8, CE_C16, CE_C32, CE_B };

void cb_init(void);
BV   cb_inc(BV x);
void cb_dec(BV x);
int  cb_kind(BV x);
double   cb_num(BV x);
uint32_t cb_chr(BV x);
BV cb_mknum(double x);
BV cb_mkchr(uint32_t c);

size_t cb_ia(BV x);
int    cb_rank(BV x);
const size_t* cb_shape(BV x);
int   cb_elt(BV x);          // CE_*
int   cb_type(BV x);         // internal type, for statistics and messages only
int   cb_isslice(BV x);
int   cb_isfillarr(BV x);
int   cb_refc(BV x);
int   cb_flags(BV x);
const void* cb_raw(BV x);    // element pointer of a typed array (not CE_B)
BV    cb_item(BV x, size_t i); // borrowed
int   cb_fill(BV x, BV* out);  // borrowed; 0: no known fill
void  cb_setflags(BV x, int flags); // fl_squoze=1 fl_asc=2 fl_dsc=4; the caller is responsible for them being true

// data: uint64_t words for CE_BIT, BV[] (consumed) for CE_B
BV cb_mkarr(int elt, size_t ia, int rank, const size_t* shape, const void* data);
BV cb_mkfillarr(size_t ia, int rank, const size_t* shape, const BV* items, BV fill); // consumes items & fill
BV cb_slice(BV x, size_t start, size_t ia, int rank, const size_t* shape); // consumes x

// calls: consume arguments, not the function; 0 ok, 1 BQN error (message in cb_err())
int cb_c1(BV f, BV x, BV* r);
int cb_c2(BV f, BV w, BV x, BV* r);
int cb_m1(BV m, BV f, BV* r);        // derive; consumes f
int cb_m2(BV m, BV f, BV g, BV* r);  // derive; consumes f,g
int cb_fork(BV f, BV g, BV h, BV* r); // consume
int cb_atop(BV g, BV h, BV* r);
int cb_field(BV ns, const char* name, BV* r);
int cb_eval(const char* src, BV* r); // fresh top-level evaluation
const char* cb_err(void);
void cb_errclear(void);
BV cb_ns(int n, const char** names, const BV* vals); // a namespace; consumes vals; at most 4 names, which must stay the same in order for each n

BV  cb_str(const char* utf8);            // string value
char* cb_utf8(BV x);                     // malloc'd; string value or NULL
char* cb_fmt(BV x);                      // malloc'd representation for messages, does not consume

int cb_flags_ok(BV x);   // the array's flags are true of its contents
BV cb_native(void);      // the native compiler, as a function
int cb_equal(BV w, BV x);
uint64_t cb_heap_used(void);
uint64_t cb_heap_alloc(void);
void cb_set_heapmax(uint64_t bytes);
uint64_t cb_heapmax(void);
void cb_gc(void);
int cb_try(int what, BV f, BV w, BV x, long at, uint64_t ctx, BV* r); // FAULT builds: do it while allocations fail; see bridge.c
uint64_t cb_caught(void);  // FAULT builds: how many errors were caught so far
uint64_t cb_objects(const char* type); // FAULT builds: how many objects of a type the heap holds
void cb_gctop(void);     // FAULT builds: a collection that keeps only what the harness holds
int  cb_gsdepth(void);   // depth of the protected-values stack
int  cb_envdepth(void);  // depth of the call stack
// statistics / faults; no-ops in variants without them
void cb_set_gc_at(uint64_t n);    // a collection at the n-th allocation from now
uint64_t cb_gc_left(void);
void cb_set_oom_at(int64_t n);    // the n-th allocation from now fails
int64_t cb_oom_left(void);
int  cb_variant_gc(void);
int  cb_variant_oom(void);
int  cb_heap_verify(void);        // HEAP_VERIFY variants: 0 ok, otherwise number of wrong counts
uint64_t cb_alloc_count(void);
#ifdef __cplusplus
}
#endif
