// •FFI: every argument reaches C with exactly its bytes, every result and changed argument comes back exactly, and what does not fit is an error. The C compiler's own layout and calls are the oracle.
#include "gen.hpp"
#include <dlfcn.h>
using namespace bq;
typedef vector<unsigned char> Bytes;
enum { U8, U16, U32, U64, I8, I16, I32, I64, F32, F64, NS };
static const char* SN[] = {"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64"}; static const char* CN[] = {"uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t", "float", "double"}; static const int SW[] = {1, 2, 4, 8, 1, 2, 4, 8, 4, 8};
static bool fits(int t, double d) { switch (t) { case F32: case F64: return true; default: if (!(d==floor(d)) || std::isinf(d)) return false; } double p53 = 9007199254740992.0; switch (t) { case U8: return d>=0 && d<=255; case U16: return d>=0 && d<=65535; case U32: return d>=0 && d<=4294967295.0; case U64: return d>=0 && d<p53; case I8: return d>=-128 && d<=127; case I16: return d>=-32768 && d<=32767; case I32: return d>=-2147483648.0 && d<=2147483647.0; default: return d>-p53 && d<p53; } }
static void put(Bytes& b, int t, double d) { int64_t i = t==F32 || t==F64? 0 : (int64_t)d; float f = (float)d; const void* p = t==F32? (void*)&f : t==F64? (void*)&d : (void*)&i; b.insert(b.end(), (const unsigned char*)p, (const unsigned char*)p+SW[t]); }
static double get(int t, const void* p) { switch (t) { case U8: return *(uint8_t*)p; case U16: { uint16_t v; memcpy(&v, p, 2); return v; } case U32: { uint32_t v; memcpy(&v, p, 4); return v; } case U64: { uint64_t v; memcpy(&v, p, 8); return (double)v; } case I8: return *(int8_t*)p; case I16: { int16_t v; memcpy(&v, p, 2); return v; } case I32: { int32_t v; memcpy(&v, p, 4); return v; } case I64: { int64_t v; memcpy(&v, p, 8); return (double)v; } case F32: { float v; memcpy(&v, p, 4); return v; } default: { double v; memcpy(&v, p, 8); return v; } } }
static const vector<double>& goods(int t) { static vector<double> G[NS]; if (G[0].empty()) { G[U8] = {0, 1, 127, 128, 255}; G[U16] = {0, 1, 255, 256, 32768, 65535}; G[U32] = {0, 1, 65536, 2147483648.0, 4294967295.0}; G[U64] = {0, 1, 4294967296.0, 9007199254740991.0}; G[I8] = {0, 1, -1, 127, -128}; G[I16] = {0, -1, 128, 32767, -32768}; G[I32] = {0, -1, 32768, 2147483647, -2147483648.0}; G[I64] = {0, -1, 2147483648.0, 9007199254740991.0, -9007199254740991.0}; G[F32] = {0, 1, -0.5, 16777216, 0.1, INFINITY, -1e300}; G[F64] = {0, -1, 0.1, 1e300, -INFINITY, 5e-324}; } return G[t]; }
// types: a scalar, a pointer to one, a struct, an array in a struct; r: read as another type
struct Ty { char k = 's'; int sc = 0; char rt = 0; int rw = 0; vector<Ty> f; int n = 0; };
static Ty S(int sc) { Ty t; t.sc = sc; return t; } static Ty R(int sc, char rt, int rw) { Ty t = S(sc); t.rt = rt; t.rw = rw; return t; } static Ty St(vector<Ty> f) { Ty t; t.k = '{'; t.f = f; return t; } static Ty A(int n, Ty e) { Ty t; t.k = '['; t.f = {e}; t.n = n; return t; }
static string str(const Ty& t) { if (t.k=='{') { string r = "{"; for (size_t i = 0; i < t.f.size(); i++) r+= (i? "," : "")+str(t.f[i]); return r+"}"; } if (t.k=='[') return mc::strf("[%d]%s", t.n, str(t.f[0]).c_str()); string r = SN[t.sc]; if (t.rt) r+= mc::strf(":%c%d", t.rt, t.rw); return r; }
static string decl(const Ty& t, const string& name) { if (t.k=='[') return decl(t.f[0], mc::strf("%s[%d]", name.c_str(), t.n)); if (t.k=='{') { string r = "struct { "; for (size_t i = 0; i < t.f.size(); i++) r+= decl(t.f[i], mc::strf("f%zu", i))+"; "; return r+"} "+name; } return string(CN[t.sc])+" "+name; }
struct Leaf { string path; Ty t; }; static void leaves(const Ty& t, const string& path, vector<Leaf>& out) { if (t.k=='{') for (size_t i = 0; i < t.f.size(); i++) leaves(t.f[i], path+mc::strf("%sf%zu", path.size()? "." : "", i), out); else if (t.k=='[') for (int i = 0; i < t.n; i++) leaves(t.f[0], path+mc::strf("[%d]", i), out); else out.push_back({path, t}); }
static const vector<Ty>& fieldTys() { static vector<Ty> F = {S(I8), S(I16), S(I32), S(F32), S(F64), S(U64), A(3, S(U8)), St({S(I8), S(U32)}), A(2, St({S(I16), S(U8)})), R(U32, 'c', 8), R(F64, 'i', 16), R(U8, 'u', 1), A(2, R(U16, 'i', 8)), St({R(U8, 'i', 8)})}; return F; }
static vector<Ty> structs(int maxLen, size_t nf) { vector<Ty> r; auto& F = fieldTys(); vector<vector<Ty>> cur = {{}}; for (int l = 1; l <= maxLen; l++) { vector<vector<Ty>> nx; for (auto& c : cur) for (size_t i = 0; i < (l>=3? nf : F.size()); i++) { auto d = c; d.push_back(F[i]); nx.push_back(d); } cur = nx; for (auto& c : cur) if (l<3 || true) r.push_back(St(c)); } return r; }
static vector<Ty> STR; static vector<vector<Leaf>> LV; static bool thoroughLib;
static string libPath; static void* lib; static unsigned char *cap, *src; static uint64_t* capn; static unsigned char* area;
template<class T> static T sym(const string& n) { void* p = dlsym(lib, n.c_str()); if (!p) { fprintf(stderr, "no symbol %s\n", n.c_str()); _exit(4); } return (T)p; }
static void makeLib() {
  STR = structs(2, 0); for (auto& t : structs(3, thoroughLib? 7 : 4)) if (t.f.size()==3) { bool ok = true; auto& F = fieldTys(); for (auto& f : t.f) { bool in = false; for (size_t i = 0; i < (thoroughLib? 7u : 4u); i++) if (str(f)==str(F[i])) in = true; if (!in) ok = false; } if (ok) STR.push_back(t); }
  STR.push_back(St({S(I32), S(I8), S(F32), S(F64), S(I16), S(U8), S(U64), S(I64)})); STR.push_back(St({A(9, S(I32))})); STR.push_back(St({St({St({S(U8)}), S(I32)}), A(2, A(3, S(I16))), S(I8)})); STR.push_back(St({S(F32), S(F32)})); STR.push_back(St({S(F32), S(F32), S(F32), S(F32)})); STR.push_back(St({S(F64), S(F64)})); STR.push_back(St({S(F64), S(I64)}));
  string c = "#include <stdint.h>\n#include <stddef.h>\n#include <string.h>\nunsigned char cap[4096], src[4096], area[1024]; uint64_t capn;\n#define P(X) (memcpy(cap+capn, &(X), sizeof(X)), capn+= sizeof(X))\n";
  for (int t = 0; t < NS; t++) c+= mc::strf("%s r_%s(void) { %s v; memcpy(&v, src, sizeof v); return v; }\n", CN[t], SN[t], CN[t]);
  int n3 = NS; auto fn = [&](const vector<int>& a) { string nm = "a", ps, body; for (size_t i = 0; i < a.size(); i++) { nm+= string("_")+SN[a[i]]; ps+= mc::strf("%s%s x%zu", i? ", " : "", CN[a[i]], i); body+= mc::strf("P(x%zu); ", i); } c+= "void "+nm+"("+ps+") { capn = 0; "+body+"}\n"; };
  for (int a = 0; a < NS; a++) { fn({a}); for (int b = 0; b < NS; b++) { fn({a, b}); for (int d = 0; d < n3; d++) fn({a, b, d}); } } for (int s = 0; s < NS; s++) { vector<int> v; for (int i = 0; i < 24; i++) v.push_back((s+i*(s%3+1))%NS); fn(v); }
  c+= "void nop(void) { capn++; }\nvoid ptrcap(void* p, uint64_t n) { memcpy(cap, p, n); capn = n; }\nvoid ptrmut(void* p, uint64_t n) { memcpy(cap, p, n); capn = n; memcpy(p, src, n); }\nint32_t ptrmut2(int32_t a, void* p, uint64_t n, void* q, uint64_t m) { memcpy(cap, p, n); memcpy(cap+n, q, m); capn = n+m; memcpy(p, src, n); memcpy(q, src+n, m); return a; }\nvoid* getarea(void) { return area; }\nvoid strptr(void* p, uint64_t n) { unsigned char* q; memcpy(&q, p, 8); memcpy(cap, q, n); capn = n; }\n";
  { static const char* CT[] = {"int32_t x%d", "uint8_t* x%d", "int16_t* x%d", "uint8_t* x%d", "struct M4 x%d", "struct M5* x%d"}; static const char* GET[] = {"P(x%d); ", "G(x%d, 3); ", "G(x%d, 4); ", "G(x%d, 3); ", "G(x%d.p, 2); P(x%d.a); G(x%d.q, 2); ", "P(x%d[0].a); P(x%d[0].b); P(x%d[1].a); P(x%d[1].b); "}; static const char* SET[] = {"", "", "memcpy(x%d, src+o, 4); o+= 4; ", "", "", "for (int j = 0; j < 2; j++) { x%d[j].a = (int8_t)src[o]; memcpy(&x%d[j].b, src+o+1, 4); o+= 5; } "};
    auto rep = [](const char* f, int i) { string r; for (const char* q = f; *q; q++) if (q[0]=='%' && q[1]=='d') { r+= std::to_string(i); q++; } else r+= *q; return r; }; c+= "struct M4 { uint8_t* p; int8_t a; uint16_t* q; };\nstruct M5 { int8_t a; int32_t b; };\n#define G(X, N) (memcpy(cap+capn, (X), (N)), capn+= (N))\n";
    for (int n = 1; n <= 3; n++) { int tot = n==1? 6 : n==2? 36 : 216; for (int k = 0; k < tot; k++) { string nm = "m", ps, g, m; int q = k; for (int i = 0; i < n; i++, q/= 6) { nm+= std::to_string(q%6); ps+= (i? ", " : "")+rep(CT[q%6], i); g+= rep(GET[q%6], i); m+= rep(SET[q%6], i); } c+= "int32_t "+nm+"("+ps+") { int o = 0; capn = 0; "+g+m+"return -99; }\n"; } } }
  for (size_t i = 0; i < STR.size(); i++) { LV.push_back({}); leaves(STR[i], "", LV[i]); c+= mc::strf("typedef %s;\nconst uint32_t o%zu[] = {sizeof(S%zu)", decl(STR[i], mc::strf("S%zu", i)).c_str(), i, i); for (auto& l : LV[i]) c+= mc::strf(", offsetof(S%zu, %s)", i, l.path.c_str()); c+= mc::strf("};\nvoid s%zu(int32_t a, S%zu s, double b) { capn = 0; P(a); P(s); P(b); }\nS%zu rs%zu(void) { S%zu s; memcpy(&s, src, sizeof s); return s; }\n", i, i, i, i, i); }
  char dir[] = "/tmp/verif_ffi_XXXXXX"; if (!mkdtemp(dir)) abort(); string base = dir; FILE* f = fopen((base+"/l.c").c_str(), "w"); fputs(c.c_str(), f); fclose(f); libPath = base+"/l.so";
  if (system(("gcc -w -O0 -fPIC -shared -o "+libPath+" "+base+"/l.c").c_str())) { fprintf(stderr, "cannot compile the library\n"); _exit(4); }
  lib = dlopen(libPath.c_str(), RTLD_NOW); if (!lib) { fprintf(stderr, "%s\n", dlerror()); _exit(4); } cap = sym<unsigned char*>("cap"); src = sym<unsigned char*>("src"); area = sym<unsigned char*>("area"); capn = sym<uint64_t*>("capn"); }
static void dropLib() { string base = libPath.substr(0, libPath.rfind('/')); unlink((base+"/l.c").c_str()); unlink(libPath.c_str()); rmdir(base.c_str()); }
static BV ffi(Ex& ex, const string& res, const string& name, const vector<string>& args, bool must = true) { vector<Val> l = {Val::str(res.c_str()), Val::str(name.c_str())}; for (auto& a : args) l.push_back(Val::str(a.c_str())); BV r; int rc = cb_c2(fnOf("•FFI"), toB(Val::str(libPath.c_str())), toB(Val::vec(l)), &r); ex.op(); if (rc) { if (must) { string a; for (auto& s : args) a+= " "+s; ex.fail("•FFI of %s %s%s: %s", res.c_str(), name.c_str(), a.c_str(), cb_err()); } return 0; } return r; }
struct FH { BV f; FH(BV b) : f(b) {} ~FH() { if (f) cb_dec(f); } operator BV() const { return f; } };
static string hex(const unsigned char* p, size_t n) { string r; for (size_t i = 0; i < n; i++) r+= mc::strf("%02x", p[i]); return r; }
static bool bytesEq(const Ty& t, const unsigned char* a, const unsigned char* b) { if (memcmp(a, b, SW[t.sc])==0) return true; if (t.rt || (t.sc!=F32 && t.sc!=F64)) return false; double x = get(t.sc, a), y = get(t.sc, b); return x!=x && y!=y; }
static void want(Ex& ex, const string& what, const Bytes& w, const unsigned char* got, uint64_t n) { ex.compared(); if (n!=w.size() || memcmp(got, w.data(), n)) ex.fail("%s\n  reaches C as %s\n  expected   %s", what.c_str(), hex(got, n).c_str(), hex(w.data(), w.size()).c_str()); }
static uint64_t h0; static void begin() { h0 = cb_heap_used(); } static void end(Ex& ex, const string& what) { uint64_t h = cb_heap_used(); ex.compared(); if (h!=h0) { cb_gc(); h = cb_heap_used(); if (h>h0) ex.fail("%s\n  leaves %lld bytes of the heap in use", what.c_str(), (long long)(h-h0)); } }
static void is(Ex& ex, const string& what, BV r, const Val& e) { ex.compared(); string why; if (!wellFormed(r, &why)) ex.fail("%s\n  gives a malformed value: %s", what.c_str(), why.c_str()); if (!same(r, e)) ex.fail("%s\n  gives    %s\n  expected %s", what.c_str(), show(fromB(r)).c_str(), show(e).c_str()); }
// --- numbers as arguments
static void scalars(Ex& ex) {
  int n = 1+ex.pick(ex.thorough? 3 : 3); vector<int> t; string nm = "a"; for (int i = 0; i < n; i++) { t.push_back(ex.pick(NS)); nm+= string("_")+SN[t[i]]; } vector<vector<int>> vs; int m = n==3 && !ex.thorough? 2 : n==3? 7 : 1<<20; 
  if (n<3) { vector<int> idx(n, 0); while (true) { vs.push_back(idx); int k = 0; while (k<n && ++idx[k]==(int)goods(t[k]).size()) idx[k++] = 0; if (k==n) break; } } else for (int r = 0; r < m; r++) vs.push_back({r*3+1, r*2+2, r+3});
  for (int side = 0; side < (1<<n); side++) { if (n==3 && !ex.thorough && side!=0 && side!=5) continue; for (int whole = 0; whole < (n==1? 2 : n==2 && (side==1 || side==2)? 2 : 1); whole++) {
    vector<string> a; for (int i = 0; i < n; i++) a.push_back(string(whole? ">" : "")+(side>>i&1? "𝕨" : i&1? "𝕩" : "")+SN[t[i]]); FH f = ffi(ex, "", nm, a);
    for (auto& ix : vs) { vector<Val> w, x; Bytes e; string ds; for (int i = 0; i < n; i++) { auto& g = goods(t[i]); double d = g[ix[i]%g.size()]; (side>>i&1? w : x).push_back(Val(d)); put(e, t[i], d); ds+= mc::strf(" %.17g as %s", d, a[i].c_str()); }
      begin(); Val wv = whole && w.size()? w[0] : Val::vec(w), xv = whole && x.size()? x[0] : Val::vec(x); BV r; *capn = 0; int rc = side? cb_c2(f, toB(wv), toB(xv), &r) : cb_c1(f, toB(xv), &r); ex.op(); if (rc) ex.fail("passing%s is an error: %s", ds.c_str(), cb_err()); want(ex, "passing"+ds, e, cap, *capn); is(ex, "the result of a function without one", r, Val::chr(0)); end(ex, "passing"+ds); ex.outcome(hashS(ds)); }
    ex.tick(); } }
}
static void many(Ex& ex) { int s = ex.pick(NS), rot = ex.pick(7); string nm = "a"; vector<string> a; vector<Val> x; Bytes e; for (int i = 0; i < 24; i++) { int t = (s+i*(s%3+1))%NS; nm+= string("_")+SN[t]; a.push_back(SN[t]); auto& g = goods(t); double d = g[(i+rot)%g.size()]; x.push_back(Val(d)); put(e, t, d); } FH f = ffi(ex, "", nm, a); BV r; int rc = cb_c1(f, toB(Val::vec(x)), &r); if (rc) ex.fail("passing 24 arguments: %s", cb_err()); want(ex, "passing 24 arguments "+nm, e, cap, *capn); ex.outcome(hashS(nm)+rot);
  for (int k = 0; k < 24; k++) for (int n : {k, 24}) { auto y = x; if (n<24) y.resize(n); else y[k] = Val::chr('a'); BV g = ffi(ex, "", nm, a); if (!cb_c1(g, toB(Val::vec(y)), &r)) ex.fail("%s is no error", n<24? "a missing argument" : "a character as a number"); cb_dec(g); ex.op(); ex.compared(); } }
static const vector<double>& edges() { static const vector<double> E = {0, -0.0, 1, -1, 0.5, -0.5, 126, 127, 127.5, 128, 129, -127, -128, -129, 254, 255, 256, 257, 32767, 32768, -32768, -32769, 65535, 65536, 2147483647, 2147483648.0, -2147483648.0, -2147483649.0, 4294967295.0, 4294967296.0, 4294967295.5, 9007199254740991.0, 9007199254740992.0, -9007199254740991.0, -9007199254740992.0, 9007199254740994.0, 1.8446744073709552e19, -9.223372036854775808e18, 9.223372036854775807e18, 1e300, -1e300, INFINITY, -INFINITY, NAN, 5e-324}; return E; }
static const vector<Val>& odd() { static const vector<Val> O = {Val::chr('a'), Val::chr(0), Val::vec({}), Val::vec({Val(1)}), Val::str("a"), Val::arr({}, {Val(1)})}; return O; }
static void ranges(Ex& ex) { // every scalar type with every edge value: the value, or an error
  int t = ex.pick(NS); FH f = ffi(ex, "", string("a_")+SN[t], {string(">")+SN[t]}); 
  for (double d : edges()) { string what = mc::strf("passing %.17g as %s", d, SN[t]); begin(); BV r; *capn = 99; int rc = cb_c1(f, toB(Val(d)), &r); ex.op(); ex.compared(); bool ok = fits(t, d); if (ok && rc) ex.fail("%s is an error: %s", what.c_str(), cb_err()); if (!ok && !rc) ex.fail("%s is no error and reaches C as %s", what.c_str(), hex(cap, *capn).c_str()); if (!ok && *capn!=99) ex.fail("%s calls the function before it fails", what.c_str()); if (ok) { Bytes e; put(e, t, d); if (d!=d) { if (get(t, cap)==get(t, cap)) ex.fail("%s", what.c_str()); } else want(ex, what, e, cap, *capn); end(ex, what); } ex.outcome(hashS(what)+ok); }
  for (auto& v : odd()) { BV r; *capn = 99; if (!cb_c1(f, toB(v), &r)) ex.fail("passing %s as %s is no error", show(v).c_str(), SN[t]); if (*capn!=99) ex.fail("passing %s as %s calls the function", show(v).c_str(), SN[t]); ex.op(); ex.compared(); }
  { BV r; for (auto s : {"+", "¨", "∘"}) { *capn = 99; if (!cb_c1(f, cb_inc(fnOf(s)), &r) || *capn!=99) ex.fail("passing a function as %s is no error", SN[t]); } }
 
}
// --- results
static Bytes pattern(int n, int k) { static const unsigned char P[][8] = {{0, 0, 0, 0, 0, 0, 0, 0}, {255, 255, 255, 255, 255, 255, 255, 255}, {1, 0, 0, 0, 0, 0, 0, 0}, {0x80, 0, 0, 0, 0, 0, 0, 0}, {0, 0x80, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0x80, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0x80}, {0x7f, 0xff, 0xff, 0x7f, 0, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x1f, 0}, {0, 0, 0, 0, 0, 0, 0x20, 0}, {1, 0, 0, 0, 0, 0, 0xe0, 0xff}, {0, 0, 0, 0, 0, 0, 0xe0, 0xff}, {0x12, 0x34, 0x56, 0x78, 0x9a, 0xbc, 0xde, 0x3f}, {0, 0, 0xc0, 0x3f, 0, 0, 0xf8, 0x3f}, {'h', 'e', 'l', 'l', 'o', 0xe9, 0, 'x'}, {0, 0, 0x80, 0x7f, 0, 0, 0xf0, 0x7f}}; Bytes b(P[k%16], P[k%16]+8); b.resize(n); return b; }
static bool readable(int t, const unsigned char* p) { if (t==I64) { int64_t v; memcpy(&v, p, 8); return v>-(1LL<<53) && v<(1LL<<53); } if (t==U64) { uint64_t v; memcpy(&v, p, 8); return v<(1ULL<<53); } return true; }
static Val unpack(char rt, int rw, const unsigned char* p, size_t bytes) { vector<Val> v; if (rw==1) { for (size_t i = 0; i < bytes*8; i++) v.push_back(Val((double)(p[i/8]>>(i%8)&1))); return Val::vec(v); } for (size_t i = 0; i < bytes*8/rw; i++) { const unsigned char* q = p+i*rw/8; if (rt=='f') v.push_back(Val(get(F64, q))); else if (rt=='i') v.push_back(Val(get(rw==8? I8 : rw==16? I16 : I32, q))); else v.push_back(Val::chr((uint32_t)get(rw==8? U8 : rw==16? U16 : U32, q))); } return Val::vec(v); }
struct Re { char rt; int rw; }; static const vector<Re> RES = {{'u', 1}, {'i', 8}, {'i', 16}, {'i', 32}, {'c', 8}, {'c', 16}, {'c', 32}, {'f', 64}};
static bool charsOk(const Val& v) { for (auto& e : v.it()) if (e.isChr() && e.c>0x10ffff) return false; return true; }
static bool numsOk(const Val& v) { for (auto& e : v.it()) if (e.isNum() && (e.n!=e.n)) return false; return true; }
static void results(Ex& ex) {
  int t = ex.pick(NS), k = ex.pick(16), re = ex.pick(RES.size()+1)-1; if (re>=0 && RES[re].rw>SW[t]*8) return; Bytes b = pattern(SW[t], k); memset(src, 0xa5, 16); memcpy(src, b.data(), b.size()); string ty = SN[t]; if (re>=0) ty+= mc::strf(":%c%d", RES[re].rt, RES[re].rw);
  Val e; bool ok = true; if (re>=0) { e = unpack(RES[re].rt, RES[re].rw, b.data(), SW[t]); if (!charsOk(e) || !numsOk(e)) return; } else { ok = readable(t, b.data()); if (ok) e = Val(get(t, b.data())); } string what = mc::strf("the result %s as %s", hex(b.data(), b.size()).c_str(), ty.c_str());
  FH f = ffi(ex, ty, string("r_")+SN[t], {}); BV r; begin(); int rc = cb_c1(f, toB(Val::vec({})), &r); ex.op(); ex.compared(); if (ok && rc) ex.fail("%s is an error: %s", what.c_str(), cb_err()); if (!ok && !rc) ex.fail("%s is no error and gives %s", what.c_str(), show(fromB(r)).c_str()); if (ok) { if (e.isNum() && e.n!=e.n) { if (t==F64) { static const unsigned char Q[8] = {0, 0, 0, 0, 0, 0, 0xf8, 0x7f}; if (memcmp(b.data(), Q, 8)) { return; } } if (cb_kind(r)!=CK_NUM || cb_num(r)==cb_num(r)) ex.fail("%s is no NaN", what.c_str()); } else is(ex, what, r, e); cb_dec(r); end(ex, what); } ex.outcome(hashS(what)); 
}
// --- lists behind pointers
static vector<Val> lists(int t) { // of one type: what fits and what just does not
  vector<Val> r; for (int base = 0; base < NS; base++) { auto& g = goods(base); vector<Val> v; for (double d : g) v.push_back(Val(d)); r.push_back(Val::vec(v)); if (fits(t, g.back())) { vector<Val> w; for (size_t i = 0; i < 40; i++) w.push_back(Val(g[(i*3+i/5)%g.size()])); r.push_back(Val::vec(w)); } } 
  for (double d : edges()) { if (d!=d) continue; r.push_back(Val::vec({Val(d)})); vector<Val> v(9, Val(1)); v[7] = Val(d); r.push_back(Val::vec(v)); } r.push_back(Val::vec({})); { vector<Val> v; for (int i = 0; i < 70; i++) v.push_back(Val((double)(i%3==0))); r.push_back(Val::vec(v)); } r.push_back(Val::vec({Val::chr('a')})); r.push_back(Val::str("ab")); r.push_back(Val::vec({Val(1), Val::vec({})})); r.push_back(Val::vec({Val(1), Val::chr('a')})); r.push_back(Val::arr({2, 3}, {Val(1), Val(2), Val(3), Val(4), Val(5), Val(6)})); return r;
}
static const vector<Val>& listsOf(int t) { static vector<Val> L[NS]; if (L[t].empty()) L[t] = lists(t); return L[t]; }
static const vector<int> PT = {U8, U16, U32, I8, I16, I32, F32, F64};
static void pointers(Ex& ex) {
  int t = PT[ex.pick(8)], mode = ex.pick(5); Val v = ex.of(listsOf(t)); bool mut = mode>=1 && mode<=3, one = mode==2; string ty = string(mut? "&" : "*")+SN[t]; if (mode==4) { if (!v.ia()) return; ty = mc::strf("[%zu]%s", v.ia(), SN[t]); } bool ok = true; Bytes e; for (auto& x : v.it()) { if (!x.isNum() || !fits(t, x.n)) ok = false; else put(e, t, x.n); } size_t nb = e.size(); if (!ok) nb = v.ia()*SW[t];
  if (mode==3) { // two changed arguments and a result
    FH f = ffi(ex, "i32", "ptrmut2", {"i32", ty, "u64", "𝕨&u16", "u64"}); Val v2 = Val::vec({Val(7), Val(65535), Val(256)}); for (auto& rp : repsOf(v, 1)) { Bytes p; for (size_t i = 0; i < nb+6; i++) p.push_back((unsigned char)(i*37+11)); if (t==F64) for (size_t i = 7; i < nb; i+= 8) p[i] = 0x40; memcpy(src, p.data(), p.size()); begin(); BV b = toB(v, rp), b2 = toB(v2); BV l[4] = {cb_mknum(-5), cb_inc(b), cb_mknum(nb), cb_mknum(6)}, r; cb_inc(b2); BV wl = cb_mkarr(CE_B, 1, 1, nullptr, &b2), xl = cb_mkarr(CE_B, 4, 1, nullptr, l); string what = mc::strf("%s as %s, and 7‿65535‿256 as &u16", show(v).c_str(), ty.c_str()); int rc = cb_c2(f, wl, xl, &r); ex.op(); if (ok && rc) ex.fail("%s: error %s", what.c_str(), cb_err()); if (!ok && !rc) ex.fail("%s: no error", what.c_str()); if (rc) { continue; } Bytes ee = e; for (double d : {7., 65535., 256.}) put(ee, U16, d); want(ex, what, ee, cap, *capn); vector<Val> c1, c2; for (size_t i = 0; i < v.ia(); i++) c1.push_back(Val(get(t, p.data()+i*SW[t]))); for (int i = 0; i < 3; i++) c2.push_back(Val(get(U16, p.data()+nb+2*i))); { Val g = fromB(r); if (v.rank()!=1 && g.ia()==3 && g.it()[1].ia()==v.ia()) { BV h = toB(Val::vec({g.it()[0], Val::arr({v.ia()}, g.it()[1].it()), g.it()[2]})); is(ex, what, h, Val::vec({Val(-5), Val::arr({v.ia()}, c1), Val::vec(c2)})); cb_dec(h); } else is(ex, what, r, Val::vec({Val(-5), Val::arr({v.ia()}, c1), Val::vec(c2)})); }  is(ex, what+", 𝕩's list afterwards", b, v); is(ex, what+", 𝕨's list afterwards", b2, v2); cb_dec(b); cb_dec(b2); cb_dec(r); end(ex, what); ex.outcome(hashS(what)); } return; }
  for (auto& rp : repsOf(v, ex.thorough? 2 : 1)) for (int pat = 0; pat < (mut? 3 : 1); pat++) {
    FH f = ffi(ex, one? "&" : "", mut? "ptrmut" : "ptrcap", {ty, "u64"}); Bytes p; for (size_t i = 0; i < nb; i++) p.push_back(pat==0? 0 : pat==1? (unsigned char)(i*53+7) : (i%SW[t]==0)); if (t>=F32 && pat) for (size_t i = 0; i < nb; i++) if (i%SW[t]==(size_t)SW[t]-1) p[i] = 0x3f; memcpy(src, p.data(), nb); memset(cap, 0xcc, 16); begin(); BV b = toB(v, rp); BV l[2] = {cb_inc(b), cb_mknum(nb)}, r; BV xl = cb_mkarr(CE_B, 2, 1, nullptr, l); string what = mc::strf("%s [%s] as %s", show(v).c_str(), rp.str().c_str(), ty.c_str()); *capn = 77777; int rc = cb_c1(f, xl, &r); ex.op(); ex.compared(); if (ok && rc) ex.fail("%s: error %s", what.c_str(), cb_err()); if (!ok && !rc) ex.fail("%s: no error", what.c_str());
    if (rc) { if (*capn!=77777) ex.fail("%s: calls the function before it fails", what.c_str()); cb_dec(b); ex.outcome(hashS(what)); continue; } want(ex, what, e, cap, *capn); is(ex, what+", the list afterwards", b, v); cb_dec(b);
    if (mut) { vector<Val> c; for (size_t i = 0; i < v.ia(); i++) c.push_back(Val(get(t, p.data()+i*SW[t]))); Val cv = Val::arr(v.a->sh, c); if (cv.rank()!=1) { Val g = fromB(r); if (!one) { if (g.ia()!=1) ex.fail("%s: %s", what.c_str(), show(g).c_str()); g = g.it()[0]; } if (g.ia()!=cv.ia()) ex.fail("%s: gives %s", what.c_str(), show(g).c_str()); for (size_t i = 0; i < cv.ia(); i++) if (!same(toB(g.it()[i]), cv.it()[i])) ex.fail("%s: gives %s", what.c_str(), show(g).c_str()); } else is(ex, what+": the changed list", r, one? cv : Val::vec({cv})); } else is(ex, what, r, Val::chr(0)); cb_dec(r); end(ex, what); ex.outcome(hashS(what)+pat); }
}
// --- reinterpreted arguments
static Val reVals(const Re& re, size_t n, int pat, int bad) { vector<Val> v; for (size_t i = 0; i < n; i++) { double d; if (re.rw==1) d = pat==0? 0 : pat==1? 1 : (i*i+i/3)%2; else if (re.rt=='f') d = pat==0? 0 : pat==1? -0.1*i : 1e300; else if (re.rt=='i') { double m = re.rw==8? 127 : re.rw==16? 32767 : 2147483647.0; d = pat==0? (double)(i%2) : pat==1? (i&1? m : -m-1) : floor(m/(i+2)); } else { double m = re.rw==8? 255 : re.rw==16? 65535 : 0x10ffff; d = pat==0? 'a'+i%5 : pat==1? m : floor(m/(i+2)); } v.push_back(re.rt=='c'? Val::chr((uint32_t)d) : Val(d)); }
  if (bad && n) { size_t at = bad==1? 0 : n-1; double o = re.rw==1? 2 : re.rt=='f'? NAN : re.rt=='i'? (re.rw==8? 128 : re.rw==16? -32769 : 2147483648.0) : re.rw==8? 256 : re.rw==16? 65536 : NAN; if (bad==3) v[at] = re.rt=='c'? Val(97) : Val::chr('a'); else if (bad==4) v[at] = re.rt=='c'? Val::str("a") : Val(0.5); else if (o==o) v[at] = re.rt=='c'? Val::chr((uint32_t)o) : Val(o); } return Val::vec(v); }
static bool reFits(const Re& re, const Val& v) { for (auto& e : v.it()) { if (e.isArr() || e.isChr()!=(re.rt=='c')) return false; if (re.rw==1) { if (e.n!=0 && e.n!=1) return false; } else if (re.rt=='i') { if (!fits(re.rw==8? I8 : re.rw==16? I16 : I32, e.n)) return false; } else if (re.rt=='c' && re.rw<32 && e.c>=1u<<re.rw) return false; } return true; }
static Bytes rePack(const Re& re, const Val& v) { Bytes b; size_t i = 0; for (auto& e : v.it()) { if (re.rw==1) { if (i%8==0) b.push_back(0); b.back()|= (e.n==1)<<(i%8); } else put(b, re.rt=='f'? F64 : re.rt=='i'? (re.rw==8? I8 : re.rw==16? I16 : I32) : re.rw==8? U8 : re.rw==16? U16 : U32, e.isChr()? e.c : e.n); i++; } return b; }
static void reinterpreted(Ex& ex) {
  int t = ex.pick(NS+1), ri = ex.pick(RES.size()), form = ex.pick(4), pat = ex.pick(3), bad = ex.pick(5); const Re& re = RES[ri]; bool vp = t==NS; int w = vp? 8 : SW[t]; if (re.rw>w*8) return; size_t mul = w*8/re.rw; string tn = vp? "*" : SN[t], rs = mc::strf(":%c%d", re.rt, re.rw);
  static const vector<size_t> Q = {1, 0, 2, 3, 9}; size_t n = form==0? mul : mul*Q[ex.pick(5)]; int off = ex.pick(3); if (off==1) n++; else if (off==2) { if (!n) return; n--; } if (vp && form==3) return; Val v = reVals(re, n, pat, bad); bool ok = reFits(re, v) && (form==0? n==mul : n%mul==0); Bytes e = rePack(re, v);
  for (auto& rp : repsOf(v, 1)) { string ty = form==0? tn+rs : form==3? mc::strf("[%zu]%s%s", v.ia(), tn.c_str(), rs.c_str()) : (form==1? "*" : "&")+tn+rs; if (form==3 && true) return; if (form==0 && vp) { /* a pointer given by its bytes */ } FH f = form==0? ffi(ex, "", vp? "a_u64" : string("a_")+SN[t], {">"+ty}) : ffi(ex, form==1? "" : "&", form==1? "ptrcap" : "ptrmut", {ty, "u64"}); size_t nb = n*re.rw/8; string what = mc::strf("%s [%s] as %s", show(v).c_str(), rp.str().c_str(), ty.c_str()); begin(); BV b = toB(v, rp), r; Bytes p; for (size_t i = 0; i < nb; i++) p.push_back(re.rt=='c'? (i%4==0? i*7 : i%4==1? i : i%4==2? 3 : 0) : re.rt=='f' && i%8==7? 0x3f : (unsigned char)(i*77+1)); memcpy(src, p.data(), nb); *capn = 77777; int rc; if (form==0) rc = cb_c1(f, cb_inc(b), &r); else { BV l[2] = {cb_inc(b), cb_mknum(nb)}; rc = cb_c1(f, cb_mkarr(CE_B, 2, 1, nullptr, l), &r); } ex.op(); ex.compared();
    if (ok && rc) ex.fail("%s: error %s", what.c_str(), cb_err()); if (!ok && !rc) ex.fail("%s: no error", what.c_str()); if (rc) { if (*capn!=77777) ex.fail("%s: calls the function before it fails", what.c_str()); cb_dec(b); continue; } Bytes ee = e; ee.resize(form==0? w : nb); want(ex, what, ee, cap, *capn); is(ex, what+", the list afterwards", b, v); cb_dec(b); if (form==2) is(ex, what+": the changed list", r, unpack(re.rt, re.rw, p.data(), nb)); cb_dec(r); end(ex, what); ex.outcome(hashS(what)); }
}
// --- structs
static Val leafVal(const Ty& t, int i, int pat) { if (t.rt) return reVals({t.rt, t.rw}, SW[t.sc]*8/t.rw, (i+pat)%3, 0); auto& g = goods(t.sc); return Val(g[(i*2+pat*3+1)%g.size()]); }
static Val sample(const Ty& t, int& i, int pat, vector<Val>* out) { if (t.k=='s') { Val v = leafVal(t, i++, pat); if (out) out->push_back(v); return v; } vector<Val> v; size_t n = t.k=='{'? t.f.size() : t.n; for (size_t k = 0; k < n; k++) v.push_back(sample(t.k=='{'? t.f[k] : t.f[0], i, pat, out)); return Val::vec(v); }
static Bytes leafBytes(const Ty& t, const Val& v) { Bytes b; if (t.rt) b = rePack({t.rt, t.rw}, v); else put(b, t.sc, v.n); return b; }
static void cmpStruct(Ex& ex, const string& what, size_t si, const vector<Val>& lv, const unsigned char* p) { const uint32_t* o = sym<uint32_t*>(mc::strf("o%zu", si)); for (size_t k = 0; k < lv.size(); k++) { Bytes b = leafBytes(LV[si][k].t, lv[k]); ex.compared(); if (memcmp(p+o[k+1], b.data(), b.size())) ex.fail("%s\n  has %s at %s, expected %s", what.c_str(), hex(p+o[k+1], b.size()).c_str(), LV[si][k].path.c_str(), hex(b.data(), b.size()).c_str()); } }
static void structArgs(Ex& ex) {
  size_t si = ex.pick(STR.size()); int pat = ex.pick(ex.thorough? 5 : 3), form = ex.pick(4); auto& T = STR[si]; string ts = str(T); const uint32_t* o = sym<uint32_t*>(mc::strf("o%zu", si)); size_t sz = o[0]; auto mk = [&](int p, vector<Val>& lv) { int i = 0; return sample(T, i, p, &lv); }; 
  if (form==0) { vector<Val> lv; Val v = mk(pat, lv); for (auto& rp : repsOf(v, 1)) { string what = mc::strf("%s [%s] as %s", show(v).c_str(), rp.str().c_str(), ts.c_str()); FH f = ffi(ex, "", mc::strf("s%zu", si), {"i32", ts, "f64"}); BV r; begin(); BV l[3] = {cb_mknum(-77), toB(v, rp), cb_mknum(0.375)}; int rc = cb_c1(f, cb_mkarr(CE_B, 3, 1, nullptr, l), &r); ex.op(); if (rc) ex.fail("%s: error %s", what.c_str(), cb_err()); if (*capn!=12+sz || get(I32, cap)!=-77 || get(F64, cap+4+sz)!=0.375) ex.fail("%s\n  disturbs the other arguments", what.c_str()); cmpStruct(ex, what, si, lv, cap+4);  ex.outcome(hashS(what)); } return; }
  if (form==1) { vector<Val> lv; Val v = mk(pat, lv); memset(src, 0x5a, sz); for (size_t k = 0; k < lv.size(); k++) { Bytes b = leafBytes(LV[si][k].t, lv[k]); memcpy(src+o[k+1], b.data(), b.size()); Val back = LV[si][k].t.rt? lv[k] : Val(get(LV[si][k].t.sc, b.data())); lv[k] = back; } size_t k = 0; std::function<Val(const Ty&)> re = [&](const Ty& t) { if (t.k=='s') return lv[k++]; vector<Val> q; for (size_t i = 0; i < (t.k=='{'? t.f.size() : (size_t)t.n); i++) q.push_back(re(t.k=='{'? t.f[i] : t.f[0])); return Val::vec(q); }; Val e = re(T); string what = "the result "+show(e)+" as "+ts; FH f = ffi(ex, ts, mc::strf("rs%zu", si), {}); BV r; begin(); if (cb_c1(f, toB(Val::vec({})), &r)) ex.fail("%s: error %s", what.c_str(), cb_err()); ex.op(); is(ex, what, r, e); cb_dec(r); end(ex, what); ex.outcome(hashS(what)); return; }
  int n = form==2? 3 : 2; vector<vector<Val>> lv(n); vector<Val> vs; for (int i = 0; i < n; i++) vs.push_back(mk(pat+i, lv[i])); Val v = Val::vec(vs); string ty = (form==2? "*" : "&")+ts, what = mc::strf("%s as %s", show(v).c_str(), ty.c_str()); FH f = ffi(ex, form==2? "" : "&", form==2? "ptrcap" : "ptrmut", {ty, "u64"}); BV r; begin();
  vector<vector<Val>> nv(n); vector<Val> ns; if (form==3) { for (int i = 0; i < n; i++) { mk(pat+i+1, nv[i]); memset(src+i*sz, 0x5a, sz); for (size_t k = 0; k < nv[i].size(); k++) { Bytes b = leafBytes(LV[si][k].t, nv[i][k]); memcpy(src+i*sz+o[k+1], b.data(), b.size()); if (!LV[si][k].t.rt) nv[i][k] = Val(get(LV[si][k].t.sc, b.data())); } size_t k = 0; std::function<Val(const Ty&)> re = [&](const Ty& t) { if (t.k=='s') return nv[i][k++]; vector<Val> q; for (size_t j = 0; j < (t.k=='{'? t.f.size() : (size_t)t.n); j++) q.push_back(re(t.k=='{'? t.f[j] : t.f[0])); return Val::vec(q); }; ns.push_back(re(T)); } }
  BV b = toB(v); BV l[2] = {cb_inc(b), cb_mknum(n*sz)}; int rc = cb_c1(f, cb_mkarr(CE_B, 2, 1, nullptr, l), &r); ex.op(); if (rc) ex.fail("%s: error %s", what.c_str(), cb_err()); for (int i = 0; i < n; i++) cmpStruct(ex, what, si, lv[i], cap+i*sz); is(ex, what+", the list afterwards", b, v); cb_dec(b); if (form==3) is(ex, what+": the changed list", r, Val::vec(ns)); cb_dec(r); end(ex, what); ex.outcome(hashS(what));
}
static void structErrors(Ex& ex) { // one leaf out of range or one item too many or too few, anywhere
  size_t si = ex.pick(STR.size()); auto& T = STR[si]; int form = ex.pick(2); int i = 0; Val v = sample(T, i, 0, nullptr); string ts = str(T); std::function<void(const Ty&, const Val&, std::function<void(const Val&)>)> each = [&](const Ty& t, const Val& x, std::function<void(const Val&)> use) { if (t.k=='s') { if (t.rt) { auto q = x.it(); q.pop_back(); use(Val::vec(q)); q = x.it(); q.push_back(q[0]); use(Val::vec(q)); use(q[0]); } else { for (double d : {0.5, 1e18, -1e300}) if (!fits(t.sc, d)) use(Val(d)); use(Val::chr('a')); use(Val::vec({x})); } return; } auto q = x.it(); q.push_back(q[0]); use(Val::vec(q)); q = x.it(); q.pop_back(); use(Val::vec(q)); use(Val(3)); q = x.it(); for (size_t k = 0; k < q.size(); k++) each(t.k=='{'? t.f[k] : t.f[0], q[k], [&](const Val& y) { auto z = q; z[k] = y; use(Val::vec(z)); }); };
  each(T, v, [&](const Val& x) { FH f = form? ffi(ex, "", "ptrcap", {"*"+ts, "u64"}) : ffi(ex, "", mc::strf("s%zu", si), {"i32", ts, "f64"}); BV r; *capn = 77777; int rc = form? cb_c1(f, toB(Val::vec({Val::vec({v, x}), Val(8)})), &r) : cb_c1(f, toB(Val::vec({Val(1), x, Val(2)})), &r); ex.op(); ex.compared(); if (!rc) ex.fail("%s as %s%s is no error", show(x).c_str(), form? "an item of *" : "", ts.c_str()); if (*capn!=77777) ex.fail("%s as %s calls the function", show(x).c_str(), ts.c_str()); });
}
// --- pointer objects: all histories of operations against a model of memory
struct P { BV o; int64_t off; int ty; int64_t stride; }; // ty: index of PTY, -1 untyped
static const vector<Ty> PTY = {S(U8), S(I32), S(F64), St({S(I8), S(I32)}), A(3, S(I16)), R(U32, 'c', 8), St({S(I8), R(U8, 'i', 8)}), S(I8), S(I16)};
static int64_t sizeOf(const Ty& t, int64_t* align = nullptr) { int64_t al = 1, s = 0; if (t.k=='s') { s = al = SW[t.sc]; } else if (t.k=='[') { s = t.n*sizeOf(t.f[0], &al); } else { for (auto& f : t.f) { int64_t a, z = sizeOf(f, &a); s = (s+a-1)/a*a+z; al = std::max(al, a); } s = (s+al-1)/al*al; } if (align) *align = al; return s; }
static void leafOffs(const Ty& t, int64_t base, vector<std::pair<int64_t, Ty>>& r) { if (t.k=='s') r.push_back({base, t}); else if (t.k=='[') for (int i = 0; i < t.n; i++) leafOffs(t.f[0], base+i*sizeOf(t.f[0]), r); else { int64_t s = base; for (auto& f : t.f) { int64_t a, z = sizeOf(f, &a); s = base+((s-base)+a-1)/a*a; leafOffs(f, s, r); s+= z; } } }
static int fieldTy(const Ty& t) { for (size_t i = 0; i < PTY.size(); i++) if (str(PTY[i])==str(t)) return i; return -2; }
static Val readTy(const Ty& t, const unsigned char* m, int64_t at) { if (t.k=='s') return t.rt? unpack(t.rt, t.rw, m+at, SW[t.sc]) : Val(get(t.sc, m+at)); vector<Val> v; if (t.k=='[') for (int i = 0; i < t.n; i++) v.push_back(readTy(t.f[0], m, at+i*sizeOf(t.f[0]))); else { int64_t s = 0; for (auto& f : t.f) { int64_t a, z = sizeOf(f, &a); s = (s+a-1)/a*a; v.push_back(readTy(f, m, at+s)); s+= z; } } return Val::vec(v); }
static bool numsOkDeep(const Val& v) { if (v.isArr()) { for (auto& e : v.it()) if (!numsOkDeep(e)) return false; return true; } return !v.isNum() || v.n==v.n; }
static BV field(Ex& ex, BV o, const char* n) { BV r; if (cb_field(o, n, &r)) ex.fail("a pointer object has no field %s", n); return r; }
static void memory(Ex& ex) {
  static unsigned char M[1024]; for (int i = 0; i < 1024; i++) area[i] = M[i] = (unsigned char)(i%8==7? 0x3f : (i*29+3)&0x7f); string hist = "a *u8 to 1024 bytes"; vector<P> ps; begin(); { FH f = ffi(ex, "*u8", "getarea", {}); BV r; if (cb_c1(f, toB(Val::vec({})), &r)) ex.fail("%s", cb_err()); BV g = field(ex, r, "add"), q; if (cb_c1(g, cb_mknum(512), &q)) ex.fail("adding 512: %s", cb_err()); cb_dec(g); cb_dec(r); ps.push_back({q, 512, 0, 1}); }
  int depth = ex.thorough? 4 : 3; for (int d = 0; d < depth; d++) {
    size_t pi = ps.size()>1? ex.pick(ps.size()) : 0; P p = ps[pi]; int op = ex.pick(7); BV r; ex.op();
    auto push = [&](BV o, int64_t off, int ty, int64_t stride) { ps.push_back({o, off, ty, stride}); };
    if (op==0) { size_t k = ex.pick(PTY.size()+1); string ts = k==PTY.size()? "" : str(PTY[k]); hist+= mc::strf(" ⋄ %zu.Cast \"%s\"", pi, ts.c_str()); BV g = field(ex, p.o, "cast"); Val sv = Val::str(ts.c_str()); if (cb_c1(g, toB(sv), &r)) ex.fail("%s: %s", hist.c_str(), cb_err()); cb_dec(g); push(r, p.off, k==PTY.size()? -1 : k, k==PTY.size()? 0 : sizeOf(PTY[k])); }
    else if (op==1 || op==2) { static const vector<double> K = {1, -1, 0, 3, 0.5}; double k = ex.of(K); hist+= mc::strf(" ⋄ %zu.%s %g", pi, op==1? "Add" : "Sub", k); BV g = field(ex, p.o, op==1? "add" : "sub"); int rc = cb_c1(g, cb_mknum(k), &r); cb_dec(g); bool ok = p.ty>=0 && k==floor(k); if (ok!=!rc) ex.fail("%s: %s", hist.c_str(), rc? cb_err() : "no error"); if (!ok) break; push(r, p.off+(op==1? 1 : -1)*(int64_t)k*p.stride, p.ty, p.stride); }
    else if (op==3) { static const vector<double> K = {0, 1, -2, 0.5}; double k = ex.of(K); hist+= mc::strf(" ⋄ %zu.Read %g", pi, k); if (p.ty>=0 && k==floor(k) && !numsOkDeep(readTy(PTY[p.ty], M, p.off+(int64_t)k*p.stride))) break; BV g = field(ex, p.o, "read"); int rc = cb_c1(g, cb_mknum(k), &r); cb_dec(g); bool ok = p.ty>=0 && k==floor(k); if (ok!=!rc) ex.fail("%s: %s", hist.c_str(), rc? cb_err() : "no error"); if (!ok) break; Val e = readTy(PTY[p.ty], M, p.off+(int64_t)k*p.stride); if (numsOkDeep(e)) is(ex, hist, r, e); cb_dec(r); }
    else if (op==4) { static const vector<double> K = {0, 1, -1}; double k = ex.of(K); int pat = ex.pick(2), bad = ex.pick(2); Ty t = PTY[p.ty<0? 0 : p.ty]; int li = 0; vector<Val> lv; Val v = sample(t, li, pat, &lv); if (bad) v = t.k=='s' && !t.rt? (t.sc==F64? Val::chr('a') : Val(0.5)) : Val::vec({Val(1)}); hist+= mc::strf(" ⋄ %g %zu.Write %s", k, pi, show(v).c_str()); BV g = field(ex, p.o, "write"); int rc = k==0 && pat? cb_c1(g, toB(v), &r) : cb_c2(g, cb_mknum(k), toB(v), &r); cb_dec(g); bool ok = p.ty>=0 && !bad; if (ok!=!rc) ex.fail("%s: %s", hist.c_str(), rc? cb_err() : "no error"); if (!ok) { if (p.ty>=0) { int64_t a = p.off+(int64_t)k*p.stride, z = sizeOf(t); memcpy(M+a, area+a, z); } if (memcmp(M, area, 1024)) ex.fail("%s\n  fails, but writes outside of the element", hist.c_str()); break; } cb_dec(r); vector<std::pair<int64_t, Ty>> lo; leafOffs(t, p.off+(int64_t)k*p.stride, lo); vector<char> used(1024); for (size_t i = 0; i < lo.size(); i++) { Bytes b = leafBytes(lo[i].second, lv[i]); memcpy(M+lo[i].first, b.data(), b.size()); for (size_t q = 0; q < b.size(); q++) used[lo[i].first+q] = 1; } int64_t a0 = p.off+(int64_t)k*p.stride, a1 = a0+sizeOf(t); for (int64_t i = a0; i < a1; i++) if (!used[i]) M[i] = area[i]; }
    else if (op==5) { static const vector<double> K = {0, 1, 2, 3, 0.5, -1}; double k = ex.of(K); hist+= mc::strf(" ⋄ %zu.Field %g", pi, k); BV g = field(ex, p.o, "field"); int rc = cb_c1(g, cb_mknum(k), &r); cb_dec(g); bool ok = p.ty>=0 && PTY[p.ty].k!='s' && k==floor(k) && k>=0 && k<(PTY[p.ty].k=='{'? PTY[p.ty].f.size() : PTY[p.ty].n); if (ok!=!rc) ex.fail("%s: %s", hist.c_str(), rc? cb_err() : "no error"); if (!ok) break; const Ty& t = PTY[p.ty]; int64_t o; Ty ft; if (t.k=='[') { o = sizeOf(t.f[0])*(int64_t)k; ft = t.f[0]; } else { int64_t s = 0; o = 0; for (int i = 0; i <= (int)k; i++) { int64_t a, z = sizeOf(t.f[i], &a); s = (s+a-1)/a*a; o = s; s+= z; } ft = t.f[(int)k]; } int fi = fieldTy(ft); if (fi<0) { cb_dec(r); break; } push(r, p.off+o, fi, p.stride); }
    else { size_t qi = ex.pick(ps.size()); P q = ps[qi]; hist+= mc::strf(" ⋄ %zu.Sub %zu", pi, qi); BV g = field(ex, p.o, "sub"); int rc = cb_c1(g, cb_inc(q.o), &r); cb_dec(g); bool ok = p.ty>=0 && q.ty>=0 && p.stride==q.stride && (p.off-q.off)%p.stride==0; if (ok) { string a = SN[PTY[p.ty].sc], b = SN[PTY[q.ty].sc]; ok = PTY[p.ty].k=='s' && PTY[q.ty].k=='s'? a==b : p.ty==q.ty || (PTY[p.ty].k==PTY[q.ty].k && sizeOf(PTY[p.ty])==sizeOf(PTY[q.ty]) && str(PTY[p.ty])==str(PTY[q.ty])); } if (ok!=!rc) ex.fail("%s: %s", hist.c_str(), rc? cb_err() : "no error"); if (!ok) break; is(ex, hist, r, Val((double)((p.off-q.off)/p.stride))); cb_dec(r); }
    ex.compared(); if (memcmp(M, area, 1024)) { int i = 0; while (M[i]==area[i]) i++; ex.fail("%s\n  leaves %02x at byte %d, expected %02x", hist.c_str(), area[i], i-512, M[i]); }
    ex.state(hashS(hist)); }
  for (auto& p : ps) cb_dec(p.o); ex.outcome(hashS(hist));
}
// --- several arguments at once: numbers, lists, changed lists, lists of a fixed length, structs of pointers, changed structs
static void mixed(Ex& ex) {
  int n = 1+ex.pick(3); vector<int> k; string nm = "m"; for (int i = 0; i < n; i++) { k.push_back(ex.pick(6)); nm+= std::to_string(k[i]); } static const char* T[] = {"i32", "*u8", "&i16", "[3]u8", "{*u8,i8,*u16}", "&{i8,i32}"}; for (size_t i = 0; i < 64; i++) src[i] = (unsigned char)(i*37+5); int side = ex.pick(1<<n), form = ex.pick(3);
  int muts = 0; for (int q : k) muts+= q==2 || q==5; if (form==1 && muts!=1) return; static const char* RS[] = {"", "&", "i32"}; vector<string> a; vector<Val> w, x, back; Bytes e; size_t o = 0; string what = nm+":";
  for (int i = 0; i < n; i++) { a.push_back(string(side>>i&1? "𝕨" : "")+T[k[i]]); Val v; double d = 10*i; auto i4 = [&](size_t p) { int32_t r; memcpy(&r, src+p, 4); return (double)r; }; auto i2 = [&](size_t p) { int16_t r; memcpy(&r, src+p, 2); return (double)r; };
    switch (k[i]) { case 0: v = Val(-70000-d); put(e, I32, v.n); break; case 1: case 3: v = numsV({200+d, 1, 7}); for (auto& q : v.it()) put(e, U8, q.n); break; case 2: v = numsV({-300-d, 5}); for (auto& q : v.it()) put(e, I16, q.n); back.push_back(numsV({i2(o), i2(o+2)})); o+= 4; break; case 4: v = Val::vec({numsV({3+d, 4}), Val(-9-d), numsV({40000+d})}); put(e, U8, 3+d); put(e, U8, 4); put(e, I8, -9-d); put(e, U16, 40000+d); break; default: v = Val::vec({numsV({-1-d, 70000+d}), numsV({2, -3})}); for (auto& q : v.it()) { put(e, I8, q.it()[0].n); put(e, I32, q.it()[1].n); } back.push_back(Val::vec({numsV({(double)(int8_t)src[o], i4(o+1)}), numsV({(double)(int8_t)src[o+5], i4(o+6)})})); o+= 10; } what+= " "+show(v)+" as "+a[i]; (side>>i&1? w : x).push_back(v); }
  what+= string(", result ")+RS[form]; FH f = ffi(ex, RS[form], nm, a); auto call = [&](const vector<Val>& w, const vector<Val>& x, BV& r) { *capn = 77777; ex.op(); return side? cb_c2(f, toB(Val::vec(w)), toB(Val::vec(x)), &r) : cb_c1(f, toB(Val::vec(x)), &r); };
  BV r; begin(); if (call(w, x, r)) ex.fail("%s: error %s", what.c_str(), cb_err()); want(ex, what, e, cap, *capn); vector<Val> res; if (form==2) res.push_back(Val(-99)); for (auto& b : back) res.push_back(b); is(ex, what, r, form==1? back[0] : !muts? form==2? Val(-99) : Val::chr(0) : Val::vec(res)); cb_dec(r); end(ex, what);
  auto bad = [&](const vector<Val>& w, const vector<Val>& x, const char* how) { BV q; ex.compared(); if (!call(w, x, q)) ex.fail("%s: %s is no error", what.c_str(), how); if (*capn!=77777) ex.fail("%s: %s calls the function", what.c_str(), how); };
  { auto y = x; y.push_back(Val(1)); bad(w, y, "one more argument"); if (x.size()) { y = x; y.pop_back(); bad(w, y, "one argument too few"); } if (side) { y = w; y.push_back(Val(1)); bad(y, x, "one more argument in 𝕨"); y = w; y.pop_back(); bad(y, x, "one argument too few in 𝕨"); } }
  int wi = 0, xi = 0; for (int i = 0; i < n; i++) { bool l = side>>i&1; auto& y = l? w[wi++] : x[xi++]; Val v = y; auto with = [&](const Val& q, const char* how) { y = q; bad(w, x, how); y = v; }; if (k[i]==0) { with(Val(0.5), "a fraction"); with(numsV({1}), "a list as a number"); continue; } with(Val(1), "a number as a list"); with(Val::chr('a'), "a character as a list"); auto it = v.it(); it.pop_back(); if (k[i]>=3 && k[i]<5) { with(Val::vec(it), "an item too few"); it = v.it(); it.push_back(it[0]); with(Val::vec(it), "an item too many"); } it = v.it(); it.back() = k[i]==4 || k[i]==5? Val(1) : Val(1e7); with(Val::vec(it), "a bad item"); }
  ex.outcome(hashS(what));
}
static void noArgs(Ex& ex) { // a side without arguments
  static const vector<Val> V = {Val(0), Val(1), Val::chr('a'), numsV({0}), numsV({1, 2}), Val::arr({0, 2}, {}), Val::arr({2, 0}, {}), Val::arr({}, {Val(1)}), Val::arr({1, 0, 1}, {}), Val::str("a")}; int side = ex.pick(3); const Val& v = ex.of(V); FH f = ffi(ex, "", side==2? "a_u8" : "nop", side==2? vector<string>{"u8"} : vector<string>{}); BV r; *capn = 5; ex.op(); ex.compared(); int rc = side==0? cb_c1(f, toB(v), &r) : side==1? cb_c2(f, toB(v), toB(Val::vec({})), &r) : cb_c2(f, toB(v), toB(numsV({1})), &r); if (!rc || *capn!=5) ex.fail("%s as %s of a function without arguments there is no error", show(v).c_str(), side? "𝕨" : "𝕩"); 
}
static void longLists(Ex& ex) { // lists of many structs, given and changed
  static const vector<int> N = {1, 15, 16, 17, 127, 128, 255, 256, 257, 300}; int n = ex.of(N), form = ex.pick(3); vector<Val> v, nv; Bytes e; memset(src, 0, 4096); static const char* T[] = {"*{i8,i32}", "&{i8,i32}", "&i16"}; for (int i = 0; i < n; i++) { int8_t a = (int8_t)(i*7); int32_t b = i*1000003; if (form<2) { v.push_back(numsV({(double)a, (double)b})); e.push_back(a); e.insert(e.end(), 3, 0); put(e, I32, b); int8_t na = (int8_t)(i*11+1); int32_t nb = 5-i*77777; memcpy(src+8*i, &na, 1); memcpy(src+8*i+4, &nb, 4); nv.push_back(numsV({(double)na, (double)nb})); } else { v.push_back(Val(i*7-300)); put(e, I16, i*7-300); int16_t q = (int16_t)(i*99); memcpy(src+2*i, &q, 2); nv.push_back(Val(q)); } }
  string what = mc::strf("%d items as %s", n, T[form]); FH f = ffi(ex, form? "&" : "", form? "ptrmut" : "ptrcap", {T[form], "u64"}); BV r; Val V = Val::vec(v); begin(); int rc = cb_c1(f, toB(Val::vec({V, Val((double)e.size())})), &r); ex.op(); if (rc) ex.fail("%s: error %s", what.c_str(), cb_err()); if (form<2) for (int i = 0; i < n; i++) memset(cap+8*i+1, 0, 3); want(ex, what, e, cap, *capn); if (form) is(ex, what, r, Val::vec(nv)); cb_dec(r); end(ex, what); ex.outcome(hashS(what));
}
// --- pointer objects as arguments: where the types are the same
static const vector<string> QT = {"u8", "i8", "i32", "f64", "{i8,i32}", "{i8,f32}", "{i32,i8}", "{i32,i8,i8}", "{i32}", "{i32,i32}", "[2]i32", "[3]i16", "[4]i16", "[3]u16", "{i8,{i8,i16}}", "{i8,{i8,u16}}", "[2]{i8,i32}", "[2]{i8,f32}", "[3]{i8,i32}", "*i8", "*u8", "**i8", "{*i8,i32}", "{*u8,i32}", "{[2]i16,i32}", "{[2]u16,i32}", ""};
static void pointerTypes(Ex& ex) {
  const string& a = ex.of(QT); const string& b = ex.of(QT); string what = "a pointer to "+a; for (int i = 0; i < 1024; i++) area[i] = (unsigned char)(i*13+1); FH g = ffi(ex, "*u8", "getarea", {}); begin(); BV r, o; if (cb_c1(g, toB(Val::vec({})), &r)) ex.fail("%s", cb_err()); auto cast = [&](const string& t) { BV q, h = field(ex, r, "cast"); if (cb_c1(h, toB(Val::str(t.c_str())), &q)) ex.fail("%s: %s", what.c_str(), cb_err()); cb_dec(h); ex.op(); return q; }; o = cast(a); bool ok = a==b || a=="" || b=="";
  for (int form = 0; form < 3; form++) { string ty = form==2? "{*"+b+"}" : (form? "&" : "*")+b; if (form==1 && b=="") continue; string w2 = what+" as "+ty; BV f = ffi(ex, "", "ptrcap", {form==1? "*"+b : ty, "u64"}, false), q; if (!f) ex.fail("%s: %s", w2.c_str(), cb_err()); *capn = 99; BV in = cb_inc(o); if (form==2) in = cb_mkarr(CE_B, 1, 1, nullptr, &in); BV l[2] = {in, cb_mknum(8)}; int rc = cb_c1(f, cb_mkarr(CE_B, 2, 1, nullptr, l), &q); ex.op(); ex.compared(); if (ok!=!rc) ex.fail("%s: %s", w2.c_str(), rc? cb_err() : "no error"); if (!rc) want(ex, w2, Bytes(area, area+8), cap, *capn); else if (*capn!=99) ex.fail("%s calls the function", w2.c_str()); cb_dec(f); }
  if (a!="" && b!="") { BV p = cast(b), h = field(ex, o, "sub"), q; int rc = cb_c1(h, cb_inc(p), &q); ex.op(); ex.compared(); if ((a==b)!=!rc) ex.fail("%s, .Sub a pointer to %s: %s", what.c_str(), b.c_str(), rc? cb_err() : "no error"); if (!rc) is(ex, what, q, Val(0)); cb_dec(h); cb_dec(p); }
  cb_dec(o); cb_dec(r); if (ok) end(ex, what); ex.outcome(hashS(what+b));
}
// --- fields of pointer objects keep the distance of the whole
static void strides(Ex& ex) {
  static const vector<Ty> T = {St({S(I8), S(I32)}), A(3, S(I16)), St({S(I8), St({S(I16), S(U8)}), S(F64)}), A(2, St({S(I8), S(I32)})), St({A(3, S(I16)), S(U8)}), St({S(U8), A(2, A(2, S(I16)))})}; static const vector<int> K = {-1, 0, 1, 2}; const Ty& t = ex.of(T); for (int i = 0; i < 1024; i++) area[i] = (unsigned char)(i%8==7? 0x3f : (i*29+3)&0x7f); FH g = ffi(ex, "*u8", "getarea", {}); begin(); string what = "a pointer to "+str(t); BV o, q; if (cb_c1(g, toB(Val::vec({})), &o)) ex.fail("%s", cb_err()); int64_t at = 512, st = sizeOf(t); Ty cur = t;
  auto step = [&](const char* m, BV arg) { BV h = field(ex, o, m); what+= string(" .")+m+" "+show(fromB(arg)); if (cb_c1(h, arg, &q)) ex.fail("%s: %s", what.c_str(), cb_err()); cb_dec(h); cb_dec(o); o = q; ex.op(); }; step("add", cb_mknum(512)); step("cast", cb_str(str(t).c_str()));
  for (int d = 0; d < 3; d++) { int op = ex.pick(3); if (op==0) { if (cur.k=='s') break; int n = cur.k=='{'? (int)cur.f.size() : cur.n, k = ex.pick(n); if (cur.k=='[') at+= k*sizeOf(cur.f[0]); else { int64_t s = 0; for (int i = 0; i <= k; i++) { int64_t a, z = sizeOf(cur.f[i], &a); s = (s+a-1)/a*a; if (i==k) at+= s; s+= z; } } Ty nx = cur.k=='['? cur.f[0] : cur.f[k]; step("field", cb_mknum(k)); cur = nx; } else { int k = ex.of(K); step(op==1? "add" : "sub", cb_mknum(k)); at+= (op==1? k : -k)*st; } }
  for (int k : K) { Val e = readTy(cur, area, at+k*st); if (!numsOkDeep(e)) continue; BV h = field(ex, o, "read"); if (cb_c1(h, cb_mknum(k), &q)) ex.fail("%s .Read %d: %s", what.c_str(), k, cb_err()); ex.op(); is(ex, what+mc::strf(" .Read %d", k), q, e); cb_dec(q); cb_dec(h); }
  cb_dec(o); end(ex, what); ex.outcome(hashS(what));
}
// --- type texts: every sequence of tokens is a type or an error
struct Rec { const vector<string>& t; size_t p = 0; bool ok = true; bool eat(const char* s) { if (p<t.size() && t[p]==s) { p++; return true; } return false; } bool at(const char* s) { return p<t.size() && t[p]==s; }
  struct I { bool retype; int w; bool ptr; }; // may its pointer be read as another type; width in bytes
  bool repr(int w, bool checkW) { if (p<t.size() && t[p][0]==':') { string s = t[p++]; int rw = atoi(s.c_str()+2); if (checkW && rw>w*8) return ok = false; } return true; }
  I type(bool inPtr, bool top) { if (!ok) return {}; if (p==t.size()) { ok = false; return {}; } string s = t[p++];
    for (int i = 0; i < NS; i++) if (s==SN[i]) { if (!inPtr) repr(SW[i], true); return {inPtr, SW[i], false}; } if (s=="a") return {false, 8, false};
    if (s=="*" || s=="&") { if (s=="*" && (p==t.size() || t[p][0]==':' || t[p]=="}" || t[p]==",")) { if (!inPtr) repr(8, false); return {inPtr, 8, true}; } if (s=="&" && !top) { ok = false; return {}; } I e = type(true, false); if (ok && e.retype) repr(8, false); return {false, 8, true}; }
    if (s=="[2]") { I e = type(top, false); if (ok && top && e.retype && p<t.size() && t[p][0]==':') ok = false; return {false, 8, false}; } // (an array argument cannot be read as another type)
    if (s=="{") { while (true) { type(false, false); if (!ok) return {}; if (eat("}")) break; if (!eat(",")) { ok = false; return {}; } } return {false, 0, false}; } ok = false; return {}; }
  bool valid(bool res) { if (res) { if (t.empty()) return true; if (t.size()==1 && t[0]=="&") return true; } else if (t.empty()) return false; int side = 0, whole = 0; while (true) { if (at("𝕩") || at("𝕨")) side++; else if (at(">")) whole++; else break; p++; } if (side>1 || whole>1 || (res && side)) return false; type(false, true); return ok && p==t.size(); } };
static bool hasA(const vector<string>& t) { for (auto& s : t) if (s=="a") return true; return false; }
static void types(Ex& ex) {
  static const vector<string> T = {"i8", "u32", "f64", "*", "&", "[2]", "{", "}", ",", ":c8", ":i16", ":u1", ":f64", ">", "𝕨", "𝕩", "a", ":i64", "x"}; static const std::set<string> BADT = {":i64", "x"}; int res = 0; vector<string> t; int n = ex.pick(ex.thorough? 7 : 6); string s; for (int i = 0; i < n; i++) { t.push_back(T[ex.pick(T.size())]); s+= t.back(); } { bool dead = false; for (size_t i = 0; i+1 < t.size(); i++) if (BADT.count(t[i])) dead = true; if (dead) return; }
  { Rec r{t}; bool ok = r.valid(res); for (auto& q : t) if (BADT.count(q)) ok = false; string what = "the argument type "+s; if (s.find(">")!=string::npos && false) return; BV f = ffi(ex, "", "nop", {s}, false); ex.compared(); if (ok && !f) ex.fail("%s is refused: %s", what.c_str(), cb_err()); if (!ok && f) ex.fail("%s is accepted", what.c_str()); if (f) { string why; BV rr; for (auto& v : {Val(1), Val::vec({Val(0)}), Val::vec({Val::vec({Val(0), Val(1)})}), Val::vec({Val::vec({Val::vec({Val(0), Val(1)})})}), Val::vec({Val::str("abcdefgh")}), Val::vec({Val::vec({})}), Val::vec({Val::vec({Val::vec({Val(0), Val(1)}), Val::vec({Val(0), Val(1)})})})}) { if (hasA(t)) break; int rc = cb_c1(f, toB(v), &rr); ex.op(); if (!rc) cb_dec(rr); rc = cb_c2(f, toB(v), toB(Val::vec({})), &rr); if (!rc) cb_dec(rr); } cb_dec(f); } ex.outcome(hashS(s)*2+ok); }
}
static void loading(Ex& ex) { // what is no library, no function, no specification
  BV r; auto bad = [&](const Val& w, const Val& x) { ex.op(); ex.compared(); if (!cb_c2(fnOf("•FFI"), toB(w), toB(x), &r)) ex.fail("%s •FFI %s is no error", show(w).c_str(), show(x).c_str()); }; Val L = Val::str(libPath.c_str()), nop = Val::str("nop"), none = Val::vec({});
  bad(Val::str("/nonexistent/lib.so"), Val::vec({none, nop})); bad(L, Val::vec({none, Val::str("nosuch")})); bad(L, Val::vec({none})); bad(L, none); bad(L, Val(1)); bad(L, nop); bad(L, Val::vec({none, Val(3)})); bad(L, Val::vec({Val(1), nop})); bad(L, Val::vec({none, nop, Val(1)})); bad(L, Val::vec({none, nop, none})); bad(L, Val::vec({Val::str("&"), nop})); bad(L, Val::vec({Val::str("&"), nop, Val::str("&i8"), Val::str("&i8")})); bad(L, Val::vec({Val::str("&i8"), nop})); bad(L, Val::vec({Val::str("[2]i8"), nop})); bad(L, Val::vec({none, nop, Val::str(">i8"), Val::str("i8")})); bad(L, Val::vec({none, nop, Val::str("i8"), Val::str(">𝕨i8"), Val::str("𝕨i8")})); bad(L, Val::arr({1, 2}, {none, nop})); bad(Val::str(""), Val::vec({none, nop})); bad(Val::chr('a'), Val::vec({none, nop}));
  { FH f = ffi(ex, "", "nop", {}); for (int k = 0; k < 3; k++) { BV q; if (cb_c1(f, toB(none), &q)) ex.fail("calling without arguments: %s", cb_err()); cb_dec(q); if (cb_c2(f, toB(none), toB(none), &q)) ex.fail("calling without arguments: %s", cb_err()); cb_dec(q); if (!cb_c1(f, cb_mknum(1), &q) || !cb_c1(f, toB(Val::vec({Val(1)})), &q) || !cb_c2(f, cb_mknum(1), toB(none), &q)) ex.fail("arguments to a function of none are no error"); } FH g = ffi(ex, "", "a_u8", {"𝕨u8"}); BV q; if (!cb_c1(g, toB(none), &q)) ex.fail("a missing 𝕨 is no error"); }
}
static void structPtr(Ex& ex) { // a pointer inside of a struct keeps its list alive for the call
  int t = PT[ex.pick(8)]; Val v = ex.of(listsOf(t)); if (!v.isArr() || !v.ia()) return; bool ok = true; Bytes e; for (auto& x : v.it()) { if (!x.isNum() || !fits(t, x.n)) ok = false; else put(e, t, x.n); } size_t nb = v.ia()*SW[t]; for (auto& rp : repsOf(v, 1)) for (int form = 0; form < 2; form++) { string ty = form? mc::strf("{*%s}", SN[t]) : mc::strf("*%s", SN[t]); string what = mc::strf("%s [%s] as %s", show(v).c_str(), rp.str().c_str(), ty.c_str()); FH f = ffi(ex, "", "ptrcap", {ty, "u64"}); BV r; begin(); BV b = toB(v, rp), in = cb_inc(b); if (form) in = cb_mkarr(CE_B, 1, 1, nullptr, &in); BV l[2] = {in, cb_mknum(nb)}; int rc = cb_c1(f, cb_mkarr(CE_B, 2, 1, nullptr, l), &r); ex.op(); if (ok!=!rc) ex.fail("%s: %s", what.c_str(), rc? cb_err() : "no error"); if (!rc) { want(ex, what, e, cap, *capn); cb_dec(r); } cb_dec(b); if (!rc) end(ex, what); ex.outcome(hashS(what)); }
}
int main(int argc, char** argv) {
  for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "thorough") || !strcmp(argv[i], "--thorough")) thoroughLib = true;
  mc::Config c; c.property = "C29"; c.assumptions = {"the C compiler's calling convention and struct layout are the platform's", "the C function keeps within what it was given", "memory that holds a signalling NaN is not read as a number (documented as undefined)"};
  c.init = []() { cb_init(); fnOf("•FFI"); for (auto s : {"+", "¨", "∘"}) fnOf(s); makeLib(); atexit(dropLib); goods(0); edges(); for (int t : PT) listsOf(t); cb_gc(); };
  c.perRun = gcEvery(64);
  c.sc = {{"scalars", 2, scalars, 3, "all lists of up to 3 of 10 types × edge values × sides"},
          {"many", 1, many, 3, "24 arguments of mixed types, 70 assignments; each missing or wrong"},
          {"ranges", 1, ranges, 3, "10 types × 45 edge numbers and 9 other values"},
          {"results", 2, results, 3, "10 types × 16 bit patterns × 8 reinterpretations and none"},
          {"pointers", 3, pointers, 3, "8 element types × lists of 110 contents × given, changed, returned, one of several, sized; all representations"},
          {"reinterpreted", 4, reinterpreted, 3, "11 types × 8 reinterpretations × scalars and pointers × 3 contents × 5 defects × 15 lengths"},
          {"structs", 2, structArgs, 3, "every struct of up to 2 of 14 field types and 3 of 4 (7), and 7 more × contents × by value, as a result, behind a pointer, changed"},
          {"struct errors", 2, structErrors, 3, "the same structs with any one item wrong, missing or too many"},
          {"pointers in structs", 2, structPtr, 3, "8 element types × lists of 110 contents"},
          {"memory", 3, memory, 3, "all histories of 3 (4) operations on pointer objects of 9 types against a model of memory"},
          {"mixed", 4, mixed, 3, "every list of up to three of 6 kinds of argument × sides × 3 results; each with one defect"}, {"none", 1, noArgs, 3, "10 values where nothing is to be passed"}, {"long", 1, longLists, 3, "lists of up to 300 structs and numbers, given and changed"}, {"objects", 2, pointerTypes, 3, "27 × 27 types: pointer objects as arguments, inside of structs, subtracted"}, {"strides", 3, strides, 3, "fields, additions and reads of pointers to 6 types"},
          {"types", 3, types, 3, "all sequences of up to 5 (6) of 19 tokens"},
          {"loading", 0, loading, 3, "19 specifications that are none"}};
  return mainMC(argc, argv, c);
}
