#include "core.h"
#include "vm.h"
#include "utils/utf.h"
#include "ns.h"
#include "bridge.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>

#if OOM_TEST
  i64 oomTestLeft = 1LL<<60;
  NORETURN void thrOOMTest(void) { oomTestLeft = 1LL<<60; thrOOM(); }
#endif

static B tb(BV x) { return r_uB(x); }
static BV fb(B x) { return x.u; }


#ifdef FAULT
// the references the harness holds: everything it gets or gives away passes through this file
static struct { u64 p; i64 n; } *held; static u64 heldCap, heldCnt;
static void track(B x, int d) {
  if (!isVal(x)) return;
  if (heldCnt*2>=heldCap) { u64 oc = heldCap; void* o = held; heldCap = oc? oc*2 : 1<<12; u64 cnt = 0; typeof(held) n = calloc(heldCap, sizeof(*held)), q = o; for (u64 i = 0; i < oc; i++) if (q[i].n) { u64 j = (q[i].p*0x9E3779B97F4A7C15ull>>32)&(heldCap-1); while (n[j].p) j = (j+1)&(heldCap-1); n[j] = q[i]; cnt++; } free(o); held = n; heldCnt = cnt; }
  u64 p = (u64)v(x), j = (p*0x9E3779B97F4A7C15ull>>32)&(heldCap-1);
  while (held[j].p && held[j].p!=p) j = (j+1)&(heldCap-1);
  if (!held[j].p) { held[j].p = p; held[j].n = 0; heldCnt++; }
  held[j].n+= d;
}
static void visitHeld(void) { for (u64 i = 0; i < heldCap; i++) for (i64 k = 0; k < held[i].n; k++) mm_visitP((Value*)held[i].p); }
#else
#define track(X, D)
#endif

void cb_init(void) { cbqn_init();
  #ifdef FAULT
  gc_addFn(visitHeld);
  #endif
}
int cb_field(BV ns, const char* name, BV* r) { // lowercase, without underscores; owned result
  if (!isNsp(tb(ns))) return 1;
  B v = ns_getC(tb(ns), (char*)name);
  if (q_N(v)) return 1;
  *r = fb(inc(v)); track(v, 1);
  return 0;
}
BV   cb_inc(BV x) { track(tb(x), 1); return fb(inc(tb(x))); }
void cb_dec(BV x) { track(tb(x), -1); dec(tb(x)); }
int cb_kind(BV v) {
  B x = tb(v);
  if (isArr(x)) return CK_ARR;
  if (isF64(x)) return CK_NUM;
  if (isC32(x)) return CK_CHR;
  if (isFun(x)) return CK_FUN;
  if (isMd1(x)) return CK_MD1;
  if (isMd2(x)) return CK_MD2;
  if (isNsp(x)) return CK_NSP;
  return CK_OTHER;
}
double   cb_num(BV x) { return tb(x).f; }
uint32_t cb_chr(BV x) { return (u32)x; }
BV cb_mknum(double x) { if (x!=x) return fb(m_f64(0.0/0.0)); return fb(m_f64(x)); }
BV cb_mkchr(uint32_t c) { return fb(m_c32(c)); }

size_t cb_ia(BV x) { return IA(tb(x)); }
int cb_rank(BV x) { return RNK(tb(x)); }
const size_t* cb_shape(BV x) { return (const size_t*)SH(tb(x)); }
int cb_elt(BV v) { B x=tb(v);
  switch (TI(x,elType)) {
    case el_bit: return CE_BIT; case el_i8: return CE_I8; case el_i16: return CE_I16; case el_i32: return CE_I32;
    case el_f64: return CE_F64; case el_c8: return CE_C8; case el_c16: return CE_C16; case el_c32: return CE_C32;
  }
  return CE_B;
}
int cb_type(BV x) { return TY(tb(x)); }
int cb_isslice(BV x) { return ARR_IS_SLICE(TY(tb(x))); }
int cb_isfillarr(BV x) { return TY(tb(x))==t_fillarr || TY(tb(x))==t_fillslice; }
int cb_refc(BV x) { return isVal(tb(x))? v(tb(x))->refc : 0; }
int cb_flags(BV x) { return v(tb(x))->flags; }
const void* cb_raw(BV v) { B x=tb(v); return TY(x)==t_bitarr? (void*)bitarr_ptr(x) : tyany_ptr(x); }
BV cb_item(BV v, size_t i) { B x=tb(v); return fb(IGetU(x, i)); }
int cb_fill(BV v, BV* out) { B f = getFillN(tb(v)); if (noFill(f)) return 0; *out = fb(f); return 1; }
void cb_setflags(BV x, int f) { FL_SET(tb(x), f); }

static void setShape(Arr* r, int rank, const size_t* sh) {
  usz* p = arr_shAlloc(r, rank);
  if (p) for (int i = 0; i < rank; i++) p[i] = sh[i];
}
BV cb_mkarr(int elt, size_t ia, int rank, const size_t* sh, const void* data) {
  Arr* r;
  switch (elt) {
    default: fatal("cb_mkarr");
    case CE_BIT: {
      u64* p; r = m_bitarrp(&p, ia); u64 n = BIT_N(ia);
      for (u64 i = 0; i < n; i++) p[i] = ((const u64*)data)[i];
      break;
    }
    case CE_I8:  { i8*  p; r = m_i8arrp (&p, ia); memcpy(p, data, ia*1); break; }
    case CE_I16: { i16* p; r = m_i16arrp(&p, ia); memcpy(p, data, ia*2); break; }
    case CE_I32: { i32* p; r = m_i32arrp(&p, ia); memcpy(p, data, ia*4); break; }
    case CE_F64: { f64* p; r = m_f64arrp(&p, ia); memcpy(p, data, ia*8); break; }
    case CE_C8:  { u8*  p; r = m_c8arrp (&p, ia); memcpy(p, data, ia*1); break; }
    case CE_C16: { u16* p; r = m_c16arrp(&p, ia); memcpy(p, data, ia*2); break; }
    case CE_C32: { u32* p; r = m_c32arrp(&p, ia); memcpy(p, data, ia*4); break; }
    case CE_B: {
      HArr_p h = m_harrUp(ia);
      for (size_t i = 0; i < ia; i++) { h.a[i] = tb(((const BV*)data)[i]); track(h.a[i], -1); }
      NOGC_E;
      r = (Arr*)h.c;
      break;
    }
  }
  arr_shVec(r);
  setShape(r, rank, sh);
  track(taga(r), 1); return fb(taga(r));
}
BV cb_mkfillarr(size_t ia, int rank, const size_t* sh, const BV* items, BV fill) {
  Arr* r = m_fillarrp(ia);
  fillarr_setFill(r, tb(fill));
  B* p = fillarrv_ptr(r);
  for (size_t i = 0; i < ia; i++) { p[i] = tb(items[i]); track(p[i], -1); }
  track(tb(fill), -1);
  NOGC_E;
  arr_shVec(r);
  setShape(r, rank, sh);
  track(taga(r), 1); return fb(taga(r));
}
BV cb_slice(BV v, size_t s, size_t ia, int rank, const size_t* sh) {
  B x = tb(v);
  track(x, -1);
  Arr* r = TI(x,slice)(x, s, ia);
  arr_shVec(r);
  setShape(r, rank, sh);
  track(taga(r), 1); return fb(taga(r));
}

static char errbuf[4096];
int cb_printerrs; // whether errors are also printed, as the REPL does
void printErrMsg(B msg);
static void takeErr(void) {
  errbuf[0] = 0;
  if (cb_printerrs) printErrMsg(thrownMsg);
  B m = thrownMsg;
  if (isArr(m)) {
    usz n = IA(m); usz o = 0;
    bool ok = true;
    for (usz i = 0; i < n && o < sizeof(errbuf)-8; i++) {
      B c = IGetU(m, i);
      if (!isC32(c)) { ok = false; break; }
      u32 q = o2cG(c);
      if (q<0x80) errbuf[o++] = q;
      else if (q<0x800) { errbuf[o++] = 0xC0|q>>6; errbuf[o++] = 0x80|(q&63); }
      else if (q<0x10000) { errbuf[o++] = 0xE0|q>>12; errbuf[o++] = 0x80|(q>>6&63); errbuf[o++] = 0x80|(q&63); }
      else { errbuf[o++] = 0xF0|q>>18; errbuf[o++] = 0x80|(q>>12&63); errbuf[o++] = 0x80|(q>>6&63); errbuf[o++] = 0x80|(q&63); }
    }
    errbuf[o] = 0;
    if (!ok) strcpy(errbuf, "(non-string error)");
  } else strcpy(errbuf, "(non-string error)");
  freeThrown();
}
const char* cb_err(void) { return errbuf; }
void cb_errclear(void) { errbuf[0] = 0; }


#ifdef FAULT
#include "fault.h"
#include <execinfo.h>
int fault_mode, fault_off; int (*fault_new)(uint64_t); void (*fault_fail)(const char*); uint64_t fault_points, fault_allocs, fault_calls;
static bool coarse; static int armed; static u64 caught; void __real_freeThrown(void); void __wrap_freeThrown(void) { caught++; __real_freeThrown(); }
static u64 ctx, lastPoint; static i64 failAt = -1; static char* stackHi; static bool injected; static u64* pcLo; 
void __real_gc_forceGC(bool toplevel);
extern char __executable_start, etext;
static u64 pathHash(void) {
  u64 h = ctx; char* fp = __builtin_frame_address(0); char* lo = fp;
  for (int i = 0; i < 24; i++) {
    if (fp<lo || fp>stackHi-16 || ((u64)fp&7)) break;
    char* ra = *(char**)(fp+8); char* nx = *(char**)fp;
    if (ra<&__executable_start || ra>&etext) break; // left compiled code
    h = (h^(u64)(ra-&__executable_start))*0x9E3779B97F4A7C15ull; h^= h>>31;
    if (nx<=fp) break;
    lo = fp = nx;
  }
  return h;
}
void fault_init(void) {
  FILE* f = fopen("/proc/self/maps", "r"); char l[512];
  while (f && fgets(l, sizeof l, f)) if (strstr(l, "[stack]")) { u64 a, b; sscanf(l, "%lx-%lx", &a, &b); stackHi = (char*)b; }
  if (f) fclose(f);
  coarse = getenv("FAULT_COARSE")!=NULL; char* m = getenv("FAULT_MODE"); fault_mode = !m? 0 : !strcmp(m,"gc")? FM_GC : !strcmp(m,"oom")? FM_OOM : !strcmp(m,"own")? FM_OWN : 0;
}
// every allocation comes here
void __wrap_gc_forceGC(bool toplevel) {
  if (!armed) return;
  fault_allocs++;
  if (failAt>=0) { if (failAt--) return; fault_points++; armed = 0; injected = true; thrOOM(); }
  u64 h = pathHash();
  if (!fault_new(h)) return;
  fault_points++; lastPoint = h;
  if (fault_mode==FM_GC) { armed = 0; __real_gc_forceGC(false); armed = 1; }
  else { armed = 0; injected = true; thrOOM(); }
}
#define gc_forceGC __real_gc_forceGC
static void topGC(void) { if (gc_depth==0) __real_gc_forceGC(true); }
void cb_gctop(void) { topGC(); }
// every object's count is the number of references to it, the harness's included
static u64 badCnt; static Value* badObj;
extern GLOBAL i32 visit_mode;
static u64 badSum; // where the wrong counts are and by how much
static void verZero(Value* x) { if (x->refc!=0) { badCnt++; badSum+= (u64)x*0x9E3779B97F4A7C15ull*(u64)(i64)(int)x->refc; if (!badObj || x->type!=t_temp) badObj = x; } }
static void verVisit(Value* x) { // also the shape, which the collector leaves to reference counting
  TIv(x,visit)(x);
  if (TIv(x,isArr) && PRNK((Arr*)x)>1) shObjP(x)->refc+= visit_mode? 1 : -1;
}
void gc_visitRoots(void);
static void verList(Value* x) { // for debugging: arrays and their shapes
  if (TIv(x,isArr) && PRNK((Arr*)x)>1) fprintf(stderr, "  %p %s refc %d, rank %d, shape at %p counted %d\n", x, type_repr(x->type), (int)x->refc, PRNK((Arr*)x), shObjP(x), (int)shObjP(x)->refc);
}
static u64 countsWrong(char* buf, u64 n) {
  badCnt = badSum = 0; badObj = NULL;
  visit_mode = 0; mm_forHeap(verVisit); gc_visitRoots();
  mm_forHeap(verZero);
  if (badCnt && buf) snprintf(buf, n, "%lu objects with a wrong reference count, such as a %s counted %d more times than it is referenced", badCnt, type_repr(badObj->type), (int)badObj->refc);
  visit_mode = 1; mm_forHeap(verVisit); gc_visitRoots();
  if (badCnt && buf && getenv("FAULT_DUMP")) { fprintf(stderr, "bad: %p refc %d\n", badObj, (int)badObj->refc); mm_forHeap(verList); }
  return badCnt;
}

static B cloneV(B x) { // the same value stored the same way; what is shared stays shared
  if (!isVal(x) || v(x)->refc>1 || !isArr(x)) return isVal(x)? inc(x) : x;
  Value* p = v(x); u8 t = p->type;
  if (ARR_IS_SLICE(t)) {
    Arr* par = ((Slice*)p)->p; B pt = taga(par); usz off;
    char* d = (char*)((TySlice*)p)->a; int w;
    switch (PTY(par)) { case t_i8arr: case t_c8arr: w = 1; break; case t_i16arr: case t_c16arr: w = 2; break; case t_i32arr: case t_c32arr: w = 4; break; case t_f64arr: case t_harr: case t_fillarr: w = 8; break; default: return inc(x); }
    off = (d-(char*)(PTY(par)==t_harr? (void*)harr_ptr(pt) : PTY(par)==t_fillarr? (void*)fillarrv_ptr(par) : (void*)((TyArr*)par)->a))/w;
    B np = cloneV(pt);
    if (v(np)==(Value*)par) { // parent shared: a slice of the same parent
    }
    Arr* r = TIi(PTY(par),slice)(np, off, PIA((Arr*)p));
    arr_shCopy(r, x); r->flags = ((Arr*)p)->flags; return taga(r);
  }
  usz sz = mm_sizeUsable(p);
  Value* n = mm_alloc(sz, t_empty);
  u8 mi = n->mmInfo; u32 rf = n->refc;
  memcpy((char*)n+sizeof(Value), (char*)p+sizeof(Value), sz-sizeof(Value));
  n->extra = p->extra; n->flags = p->flags;
  Arr* na = (Arr*)n;
  if (PRNK((Arr*)p)>1) ptr_inc(shObjP(p));
  if (t==t_harr) { B* a = ((HArr*)n)->a; n->type = t; for (usz i = 0; i < PIA(na); i++) a[i] = cloneV(((HArr*)p)->a[i]); }
  else if (t==t_fillarr) { n->type = t; FillArr* f = (FillArr*)n; f->fill = isVal(((FillArr*)p)->fill)? inc(((FillArr*)p)->fill) : ((FillArr*)p)->fill; for (usz i = 0; i < PIA(na); i++) f->a[i] = cloneV(((FillArr*)p)->a[i]); }
  n->type = t;
  return taga(na);
}
// FAULT_COARSE: points differ only by call path, and where arguments are arrays, empty, shared or hold values
static u64 ctxOf(B f, B w, B x) {
  u64 h = 0x1234567; 
  B a[2] = {w, x};
  for (int i = 0; i < 2; i++) { u64 k = 0; if (isArr(a[i])) k = coarse? 1+(v(a[i])->refc>1)*2+(IA(a[i])==0)*4+(TI(a[i],elType)==el_B)*8 : 1+TY(a[i])+64*(v(a[i])->refc>1)+128*(IA(a[i])==0)+256*(RNK(a[i])>2? 2 : RNK(a[i])); h = (h^k)*0x9E3779B97F4A7C15ull; }
  u64 fi = isVal(f)? (u64)v(f)->type*512+(isFun(f)? v(f)->flags : 0)+1 : 0; h = (h^fi)*0x9E3779B97F4A7C15ull;
  return h;
}
static char fmsg[6000]; static u64 heapLimit = 1<<17;
static int call(B f, bool dy, B w, B x, BV* r, bool arm) {
  if (CATCH) { armed = 0; takeErr(); return 1; }
  armed = arm;
  B t = dy? c2(f, w, x) : c1(f, x);
  armed = 0; popCatch(); *r = fb(t); return 0;
}
static void stacksSame(int g0, int e0) { int g1 = gStack-gStackStart, e1 = envCurr+1-envStart; if (g0!=g1 || e0!=e1) { snprintf(fmsg, sizeof fmsg, "running out of memory leaves the value stack at %d (before: %d) and the call stack at %d (before: %d)", g1, g0, e1, e0); fault_fail(fmsg); } }
static void faultBefore(B f, bool dy, B w, B x) {
  if (fault_off) return;
  fault_calls++; ctx = ctxOf(f, dy? w : m_f64(0), x);
  if (fault_mode==FM_OOM) {
    for (int k = 0; k < 4000; k++) {
      B cw = dy? cloneV(w) : m_f64(0), cx = cloneV(x); BV r; u64 c0 = caught; int g0 = gStack-gStackStart, e0 = envCurr+1-envStart; injected = false;
      int rc = call(f, dy, cw, cx, &r, true);
      if (!rc) dec(tb(r));
      stacksSame(g0, e0);
      if (!injected) return;
      if (rc && caught==c0+1 && strcmp(errbuf, "Out of memory")) { snprintf(fmsg, sizeof fmsg, "running out of memory gives the error \"%s\"", errbuf); fault_fail(fmsg); }
      topGC(); // collects what the failed call left half done
    }
  } else if (fault_mode==FM_OWN) {
    for (int k = 0; k < 4; k++) {
      if (k) topGC();
      u64 u0 = tot_heapUsed(); B cw = dy? cloneV(w) : m_f64(0), cx = cloneV(x); BV r; u64 c0 = caught; int rc = call(f, dy, cw, cx, &r, false);
      if (rc) return;
      dec(tb(r)); u64 u1 = tot_heapUsed(); if (u0==u1) { fault_points++; break; } if (caught!=c0) return; // an error was caught inside
      if (k==3) { snprintf(fmsg, sizeof fmsg, u1>u0? "every time this is evaluated %lu bytes are left over after its arguments and result are freed" : "evaluating this and freeing its arguments and result frees %lu bytes too many", u1>u0? u1-u0 : u0-u1); fault_fail(fmsg); }
    }
  }
}
// one thing done while an allocation fails (the at-th, or with at<0 each new kind of point in turn): 1 an allocation failed; +2 there is a result
static int tryEnd(int rc, u64 c0, int g0, int e0) {
  armed = 0; failAt = -1; stacksSame(g0, e0);
  if (!injected) return rc? 0 : 2;
  if (rc && caught==c0+1 && strcmp(errbuf, "Out of memory")) { snprintf(fmsg, sizeof fmsg, "running out of memory gives the error \"%s\"", errbuf); fault_fail(fmsg); }
  return rc? 1 : 3;
}
int cb_try(int what, BV f, BV w, BV x, long at, uint64_t c, BV* r) { // what: 1 f x, 2 w f x, 3 w⊣_f (1-modifier), 4 w _f_ x, 5 fork, 6 atop, 7 evaluate the string f (not a value)
  u64 c0 = caught; int g0 = gStack-gStackStart, e0 = envCurr+1-envStart; injected = false; fault_calls++; ctx = c; failAt = at;
  if (what!=7) { if (what!=1) track(tb(w), -1); if (what!=3) track(tb(x), -1); if (what==5) track(tb(f), -1); }
  int rc = 1;
  if (CATCH) takeErr();
  else {
    B t; armed = 1;
    switch (what) { default: UD;
      case 1: t = c1(tb(f), tb(x)); break; case 2: t = c2(tb(f), tb(w), tb(x)); break;
      case 3: t = m1_d(inc(tb(f)), tb(w)); break; case 4: t = m2_d(inc(tb(f)), tb(w), tb(x)); break;
      case 5: t = m_fork(tb(f), tb(w), tb(x)); break; case 6: t = m_atop(tb(w), tb(x)); break;
      case 7: armed = 0; t = utf8Decode0((char*)f); armed = 1; t = bqn_exec(t, bi_N); break;
    }
    armed = 0; popCatch(); *r = fb(t); track(t, 1); rc = 0;
  }
  return tryEnd(rc, c0, g0, e0);
}
uint64_t cb_caught(void) { return caught; }
static u64 typeCnt[100]; static void cntVisit(Value* x) { typeCnt[x->type]++; }
uint64_t cb_objects(const char* name) { memset(typeCnt, 0, sizeof typeCnt); mm_forHeap(cntVisit); u64 r = 0; for (int i = 0; i < 100; i++) if (typeCnt[i] && !strcmp(type_repr(i), name)) r+= typeCnt[i]; return r; }
void (*fault_show)(BV f, int dy, BV w, BV x);
static int faultCall(B f, bool dy, B w, B x, BV* r) { // consumes w, x
  static int dbg = -1; if (dbg<0) dbg = getenv("FAULT_DUMP")!=NULL; if (dbg && fault_show) { fault_off++; fault_show(fb(f), dy, fb(w), fb(x)); fault_off--; }
  faultBefore(f, dy, w, x);
  u64 pts = fault_points; bool verify = fault_mode==FM_OWN && !fault_off && fault_new(ctx);
  u64 bad0 = 0, sum0 = 0; if (verify) { topGC(); bad0 = countsWrong(NULL, 0); sum0 = badSum; } // errors before this left references behind
  if (dy) track(w, -1); track(x, -1);
  u64 c0 = caught; int rc = call(f, dy, w, x, r, fault_mode==FM_GC && !fault_off); if (caught!=c0) verify = false;
  if (!rc) track(tb(*r), 1);
  if (fault_off) return rc;
  if (fault_mode==FM_GC && pts!=fault_points) topGC();
  if (tot_heapUsed()>heapLimit) { topGC(); u64 u = tot_heapUsed(); heapLimit = u*2>1<<17? u*2 : 1<<17; }
  if (verify && !rc && (countsWrong(fmsg+100, sizeof(fmsg)-100)!=bad0 || badSum!=sum0)) fault_fail(fmsg+100);
  return rc;
}
#endif
int cb_c1(BV f, BV x, BV* r) {
  #ifdef FAULT
    if (fault_mode) return faultCall(tb(f), false, m_f64(0), tb(x), r);
    track(tb(x), -1);
  #endif
  if (CATCH) { takeErr(); return 1; }
  B t = c1(tb(f), tb(x));
  popCatch();
  *r = fb(t); track(t, 1);
  return 0;
}
int cb_c2(BV f, BV w, BV x, BV* r) {
  #ifdef FAULT
    if (fault_mode) return faultCall(tb(f), true, tb(w), tb(x), r);
    track(tb(w), -1); track(tb(x), -1);
  #endif
  if (CATCH) { takeErr(); return 1; }
  B t = c2(tb(f), tb(w), tb(x));
  popCatch();
  *r = fb(t); track(t, 1);
  return 0;
}
int cb_m1(BV m, BV f, BV* r) {
  track(tb(f), -1);
  if (CATCH) { takeErr(); return 1; }
  B t = m1_d(inc(tb(m)), tb(f));
  popCatch();
  *r = fb(t); track(t, 1);
  return 0;
}
int cb_m2(BV m, BV f, BV g, BV* r) {
  track(tb(f), -1); track(tb(g), -1);
  if (CATCH) { takeErr(); return 1; }
  B t = m2_d(inc(tb(m)), tb(f), tb(g));
  popCatch();
  *r = fb(t); track(t, 1);
  return 0;
}
int cb_eval(const char* s, BV* r) {
  if (CATCH) { takeErr(); return 1; }
  B t = bqn_exec(utf8Decode0(s), bi_N);
  popCatch();
  *r = fb(t); track(t, 1);
  return 0;
}

BV cb_str(const char* s) { B r = utf8Decode0(s); track(r, 1); return fb(r); }
char* cb_utf8(BV v) {
  B x = tb(v);
  if (!isArr(x)) return NULL;
  usz n = IA(x);
  char* r = malloc(n*4+1); usz o = 0;
  for (usz i = 0; i < n; i++) {
    B c = IGetU(x, i);
    if (!isC32(c)) { free(r); return NULL; }
    u32 q = o2cG(c);
    if (q<0x80) r[o++] = q;
    else if (q<0x800) { r[o++] = 0xC0|q>>6; r[o++] = 0x80|(q&63); }
    else if (q<0x10000) { r[o++] = 0xE0|q>>12; r[o++] = 0x80|(q>>6&63); r[o++] = 0x80|(q&63); }
    else { r[o++] = 0xF0|q>>18; r[o++] = 0x80|(q>>12&63); r[o++] = 0x80|(q>>6&63); r[o++] = 0x80|(q&63); }
  }
  r[o] = 0;
  return r;
}
char* cb_fmt(BV x) {
  if (CATCH) { takeErr(); return strdup("(cannot be formatted)"); }
  B t = bqn_repr(inc(tb(x)));
  popCatch();
  char* r = cb_utf8(fb(t));
  dec(t);
  return r? r : strdup("?");
}

int cb_flags_ok(BV x) {
  if (CATCH) { takeErr(); return 0; }
  bool r = validate_flags(false, tb(x));
  popCatch();
  return r;
}
int cb_equal(BV w, BV x) { return equal(tb(w), tb(x)); }
uint64_t cb_heap_used(void) { return tot_heapUsed(); }
uint64_t cb_heap_alloc(void) { return mm_heapAlloc; }
void cb_set_heapmax(uint64_t b) { mm_heapMax = b; }
uint64_t cb_heapmax(void) { return mm_heapMax; }
void cb_gc(void) {
  #ifdef FAULT
  if (gc_depth==0) __real_gc_forceGC(false);
  #elif ENABLE_GC
  gc_forceGC(false);
  #endif
}
int cb_gsdepth(void) { return gStack-gStackStart; }
int cb_envdepth(void) { return envCurr+1-envStart; }

#ifdef GC_EVERY_NTH_ALLOC
  extern GLOBAL u64 nth_alloc;
  void cb_set_gc_at(uint64_t n) { nth_alloc = n; }
  uint64_t cb_gc_left(void) { return nth_alloc; }
  int cb_variant_gc(void) { return 1; }
#else
  void cb_set_gc_at(uint64_t n) { }
  uint64_t cb_gc_left(void) { return 0; }
  int cb_variant_gc(void) { return 0; }
#endif
#if OOM_TEST
  void cb_set_oom_at(int64_t n) { oomTestLeft = n; }
  int64_t cb_oom_left(void) { return oomTestLeft; }
  int cb_variant_oom(void) { return 1; }
#else
  void cb_set_oom_at(int64_t n) { }
  int64_t cb_oom_left(void) { return 0; }
  int cb_variant_oom(void) { return 0; }
#endif

#if HEAP_VERIFY
  extern Value* heap_observed;
  #include <stdio.h>
  int cb_heap_verify(void) { fflush(stdout); cbqn_heapVerify(); return heap_observed!=0; }
#else
  int cb_heap_verify(void) { return 0; }
#endif
uint64_t cb_alloc_count(void) { return 0; }
int cb_fork(BV f, BV g, BV h, BV* r) {
  track(tb(f), -1); track(tb(g), -1); track(tb(h), -1);
  if (CATCH) { takeErr(); return 1; }
  B t = m_fork(tb(f), tb(g), tb(h));
  popCatch();
  *r = fb(t); track(t, 1);
  return 0;
}
BV cb_ns(int n, const char** names, const BV* vals) { // one description per list of names
  static struct { int n; const char* names[4]; Body* b; } known[64]; static int count;
  int k = 0; for (; k < count; k++) { int same = known[k].n==n; for (int i = 0; same && i < n; i++) same = strcmp(known[k].names[i], names[i])==0; if (same) break; }
  if (k==count) { if (count==64 || n>4) abort(); known[k].n = n; char* nm[4]; for (int i = 0; i < n; i++) known[k].names[i] = nm[i] = strdup(names[i]); known[k].b = m_nnsDescF(n, nm); count++; }
  B v[4]; for (int i = 0; i < n; i++) { v[i] = tb(vals[i]); track(v[i], -1); } B r = m_nnsF(known[k].b, n, v); track(r, 1); return fb(r);
}
#if NATIVE_COMPILER
extern B native_comp;
BV cb_native(void) { B r = incG(native_comp); track(r, 1); return fb(r); }
#endif
int cb_atop(BV g, BV h, BV* r) {
  track(tb(g), -1); track(tb(h), -1);
  if (CATCH) { takeErr(); return 1; }
  B t = m_atop(tb(g), tb(h));
  popCatch();
  *r = fb(t); track(t, 1);
  return 0;
}
