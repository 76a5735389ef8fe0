From a03aae26ff3d582ae493ce663fe97c2dec16c214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:40 +0000
Subject: [PATCH 01/34] fix: error messages with %B crashed on non-string
 values when FORMATTER=0

---
 src/core/stuff.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/stuff.c b/src/core/stuff.c
index 880e128..b9e6dd8 100644
--- a/src/core/stuff.c
+++ b/src/core/stuff.c
@@ -229,6 +229,10 @@ NOINLINE B do_fmt(B s, char* p, va_list a) {
       }
       case 'B': {
         B b = va_arg(a, B);
+        #if !FORMATTER // bqn_repr returns its argument unchanged
+          if (isNum(b)) { AFMT("%f", o2f(b)); break; }
+          if (!isStr(b)) { A8(genericDesc(b)); break; }
+        #endif
         s = appendRaw(s, bqn_repr(inc(b)));
         break;
       }
-- 
2.43.0


From afc1437f962382227a94cd936117b595d31127ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 02/34] =?UTF-8?q?fix:=20=E2=88=BE=F0=9D=95=A9=20rejected?=
 =?UTF-8?q?=20valid=20items=20because=20of=20an=20overlapping=20shape=20co?=
 =?UTF-8?q?py?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/builtins/sfns.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builtins/sfns.c b/src/builtins/sfns.c
index a2207a6..4fa2124 100644
--- a/src/builtins/sfns.c
+++ b/src/builtins/sfns.c
@@ -906,7 +906,7 @@ B join_c1(B t, B x) {
           usz* sh=SH(base);
           lr = r - tr;
           shcpy(tsh,sh,r); shcpy(tsh0,sh,r);
-          if (!a0) shcpy(tsh +lr+1, tsh +lr  , tr  );
+          if (!a0) shcpy(tsh +lr+1, sh  +lr  , tr  ); // tsh would overlap
           else     shcpy(tsh0+lr  , tsh0+lr+1, tr-1);
         }
         for (usz i=1; i<n; i++) {
-- 
2.43.0


From e7ff3587f01bfeb1fa68f6bf3805e8f5c70a8d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 03/34] =?UTF-8?q?fix:=20=F0=9D=95=A8=E2=8A=8F=F0=9D=95=A9?=
 =?UTF-8?q?=20did=20not=20check=20indices=20when=20cells=20have=20no=20ele?=
 =?UTF-8?q?ments?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/builtins/select.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/builtins/select.c b/src/builtins/select.c
index fa94210..fb3be1d 100644
--- a/src/builtins/select.c
+++ b/src/builtins/select.c
@@ -603,9 +603,13 @@ B select_c2(B t, B w, B x) {
   depth2: return select_depth2_impl(wia, w, x);
   
   generic_l: {
-    if (xia==0) goto emptyRes;
-    SLOW2("𝕨⊏𝕩", w, x);
     SGetU(w)
+    if (xia==0) { // no elements to copy, but indices must still be valid
+      dec(xf);
+      for (usz i = 0; i < wia; i++) { f64 c = o2i64(GetU(w, i)); WRAP_SELECT_ONE(c, xn, "%f", c); }
+      goto emptyRes;
+    }
+    SLOW2("𝕨⊏𝕩", w, x);
     usz csz = arr_csz(x);
     CFRes f = cf_get(1, csz<<elwBitLog(xe));
     
-- 
2.43.0


From 4afd037b4c7c8fd51941a03b61647b1312242e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 04/34] =?UTF-8?q?fix:=20compound=20=F0=9D=95=A8=E2=8A=8F?=
 =?UTF-8?q?=F0=9D=95=A9=20ended=20the=20process=20on=20all-negative=20indi?=
 =?UTF-8?q?ces?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/builtins/select.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builtins/select.c b/src/builtins/select.c
index fb3be1d..a3264da 100644
--- a/src/builtins/select.c
+++ b/src/builtins/select.c
@@ -247,7 +247,7 @@ Depth2Inds select_depth2_parse_inds(B w, B x) { // consumes w; checks that w of
     if (lastIA>0) {
       if (!elNum(ce)) { select_depth2_bad(w,x); thrM("𝕨⊏𝕩: Elements of compound 𝕨 must be arrays of numbers"); }
       
-      if (!getRange_fns[ce](tyany_ptr(c), bounds, lastIA) || bounds[0] < -(i64)xsh[i] || bounds[1] >= xsh[i]) {
+      if (!getRange_fns[ce](tyany_ptr(c), bounds, lastIA) || bounds[0] < -(i64)xsh[i] || bounds[1] >= (i64)xsh[i]) {
         select_depth2_bad(w,x);
         select_depth2_bad_inds(c, i, x);
       }
-- 
2.43.0


From 8977e55c7cbfcdb59e9f0395e56efee0a6ab53a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 05/34] =?UTF-8?q?fix:=20=E2=8A=94=20lost=20the=20fill=20of?=
 =?UTF-8?q?=20groups=20whose=20cells=20have=20no=20elements?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/builtins/group.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builtins/group.c b/src/builtins/group.c
index 81a7a9d..1c83c9d 100644
--- a/src/builtins/group.c
+++ b/src/builtins/group.c
@@ -200,7 +200,7 @@ static B group_simple(B w, B x, ur xr, usz wia, usz xn, usz* xsh, u8 we) {
   
   u8 xk = xl - 3;
   if (notB && csz==0) { // Empty cells, no movement needed
-    allocBitGroups(rp, ria, z, xr, xsh, len, width);
+    allocGroups(rp, ria, z, xt, xr, xsh, len, 0, 0);
   } else if (notB && sort) { // Sorted 𝕨, that is, partition 𝕩
     void* xp = tyany_ptr(x);
     u64 i=neg*width;
-- 
2.43.0


From c1d1453024b36586b4411335a17701e0cab48b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 06/34] =?UTF-8?q?fix:=20=E2=80=A2HashMap=20kept=20cached?=
 =?UTF-8?q?=20sortedness=20of=20value=20and=20key=20lists=20that=20it=20ch?=
 =?UTF-8?q?anges=20in=20place?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/builtins/search.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/builtins/search.c b/src/builtins/search.c
index d15732e..88329fb 100644
--- a/src/builtins/search.c
+++ b/src/builtins/search.c
@@ -736,7 +736,7 @@ void hashmap_set(B* vars, B w, B x) {
   B* keys = harr_ptr(vars[0]);
   HASHMAP_INSERT(
     w,
-    B vs = vars[1]; if (!reusable(vs)) vars[1] = vs = taga(cpyHArr(vs)); B* s = harr_ptr(vs)+i; dec(*s); dec(w); *s=x; return;
+    B vs = vars[1]; if (!reusable(vs)) vars[1] = vs = taga(cpyHArr(vs)); FL_KEEP(vs,0); B* s = harr_ptr(vs)+i; dec(*s); dec(w); *s=x; return;
   )
   map->pop++;
   if (map->pop>>(64-3-sh)>7 || je==map->sz-1) { // keep load <= 7/8
@@ -763,6 +763,7 @@ void hashmap_delete(B* vars, B x) {
     B vb = vars[1];
     if (!reusable(kb)) { vars[0]=kb=taga(cpyHArr(kb)); keys=harr_ptr(kb); }
     if (!reusable(vb)) { vars[1]=vb=taga(cpyHArr(vb)); }
+    FL_KEEP(kb,0); FL_KEEP(vb,0);
     usz p = --(map->pop); dec(keys[i]); keys[i]=bi_N;
     B* s = harr_ptr(vb)+i; dec(*s); *s=bi_N;
     if (p==0 || p+32 < IA(kb)/2) hashmap_compact(vars);
-- 
2.43.0


From 6e3706577d65050e1f0b1ad46b90995b1564f8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 07/34] =?UTF-8?q?fix:=20dyadic=20-=C2=B4=20of=20a=20Boolea?=
 =?UTF-8?q?n=20list=20overflowed=20for=20=F0=9D=95=A8=20of=20=C2=AF2147483?=
 =?UTF-8?q?648?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/builtins/fold.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builtins/fold.c b/src/builtins/fold.c
index 483d218..13eac03 100644
--- a/src/builtins/fold.c
+++ b/src/builtins/fold.c
@@ -363,7 +363,7 @@ B fold_c2(Md1D* d, B w, B x) { B f = d->f;
       i32 wi = wf; if (wi!=wf) goto base;
       u64* xp = bitany_ptr(x);
       if (rtid==n_add) { B r = m_f64(wi            + bit_sum (xp, ia)); decG(x); return r; }
-      if (rtid==n_sub) { B r = m_f64((ia&1?-wi:wi) + bit_diff(xp, ia)); decG(x); return r; }
+      if (rtid==n_sub) { B r = m_f64((ia&1?-wf:wf) + bit_diff(xp, ia)); decG(x); return r; }
       if (wi!=(wi&1)) goto base;
       if (rtid==n_and | rtid==n_mul | rtid==n_floor) { B r = m_i32(wi && !bit_has(xp, ia, 0)); decG(x); return r; }
       if (rtid==n_or  |               rtid==n_ceil ) { B r = m_i32(wi ||  bit_has(xp, ia, 1)); decG(x); return r; }
-- 
2.43.0


From d430ecfda348803324b452eacd77643a8f78091f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:53 +0000
Subject: [PATCH 08/34] =?UTF-8?q?fix:=20=E2=88=BE=CB=9D=20on=20cells=20of?=
 =?UTF-8?q?=20one=20element=20gave=20rank=20one=20too=20high?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/builtins/cells.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builtins/cells.c b/src/builtins/cells.c
index 6e010bf..2a287d9 100644
--- a/src/builtins/cells.c
+++ b/src/builtins/cells.c
@@ -524,7 +524,7 @@ B for_cells_c1(B f, u32 xr, u32 cr, u32 k, B x, u32 chr) { // F⎉cr x; array x,
         case n_fold: if (cr != 1) break; // else fall through
         case n_insert: if (cr>0 && isFun(fd->f)) {
           u8 frtid = RTID(fd->f);
-          if (frtid==n_join && rtid==n_insert) return insert_cells_join(x, xsh, cr, k);
+          if (frtid==n_join && rtid==n_insert && !(cr==1 && xsh[k]==1)) return insert_cells_join(x, xsh, cr, k);
           usz m = xsh[k];
           if (m==0) return insert_cells_identity(x, fd->f, xsh, xr, k, rtid);
           if (TI(x,elType)==el_B) break;
-- 
2.43.0


From 0df1641e100a07992f185fce779af454425371ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:14 +0000
Subject: [PATCH 09/34] fix: interleaving empty arrays changed the shape of the
 shared empty list

---
 src/builtins/transpose.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/builtins/transpose.c b/src/builtins/transpose.c
index 87c19f8..01ac210 100644
--- a/src/builtins/transpose.c
+++ b/src/builtins/transpose.c
@@ -115,7 +115,9 @@ Arr* join_cells(B w, B x, ur k) { // consumes w,x; join k-cells, 𝕨 ∾○⥊
   usz wcsz = shProd(SH(w), k, RNK(w));
   usz xcsz = shProd(SH(x), k, RNK(x));
   usz ia = IA(w)+IA(x);
-  if (wcsz == xcsz) {
+  if (ia == 0) {
+    r = emptyWithFill(fill_both(w, x)); // not a shared empty list, as the caller sets the shape
+  } else if (wcsz == xcsz) {
     usz csz = wcsz;
     if (csz & (csz-1)) {
       goto generic;
-- 
2.43.0


From 87633ac1574261e2ac137c06738f0a25ccd8eb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 10/34] =?UTF-8?q?fix:=20=E2=8C=BE=E2=8A=91=20in=20place=20?=
 =?UTF-8?q?on=20a=20sorted=20list=20of=20arrays=20kept=20it=20marked=20as?=
 =?UTF-8?q?=20sorted?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/builtins/sfns.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/builtins/sfns.c b/src/builtins/sfns.c
index 4fa2124..ba88adf 100644
--- a/src/builtins/sfns.c
+++ b/src/builtins/sfns.c
@@ -1363,9 +1363,11 @@ static B pick_replaceOne(B fn, usz pos, B x, usz xia) {
   if (TI(x,elType)==el_B) {
     B* xp;
     if (TY(x)==t_harr || TY(x)==t_hslice) {
-      if (!(TY(x)==t_harr && reusable(x))) x = taga(cpyHArr(x));
+      if (TY(x)==t_harr && reusable(x)) REUSE(x);
+      else x = taga(cpyHArr(x));
       xp = harr_ptr(x);
     } else if (TY(x)==t_fillarr && reusable(x)) {
+      REUSE(x);
       xp = fillarrv_ptr(a(x));
     } else {
       Arr* x2 = m_fillarrp(xia);
-- 
2.43.0


From aa0b297e356f360db814eaffad9cf222612dd891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 11/34] =?UTF-8?q?fix:=20array=E2=8C=BE(w=E2=8A=B8=E2=8A=8F?=
 =?UTF-8?q?)=20with=20only=20negative=20indices=20was=20a=20fatal=20error?=
 =?UTF-8?q?=20with=2064-bit=20sizes?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/builtins/select.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builtins/select.c b/src/builtins/select.c
index a3264da..3c1c709 100644
--- a/src/builtins/select.c
+++ b/src/builtins/select.c
@@ -1272,7 +1272,7 @@ B select_ucw(B t, B o, B w, B x) {
   if (MAY_F(isArr(o) && RNK(x)>0)) {
     usz xn = *SH(x);
     i64 buf[2];
-    if (wia!=0 && (!getRange_fns[we](tyany_ptr(w), buf, wia) || buf[0]<-(i64)xn || buf[1]>=xn)) {
+    if (wia!=0 && (!getRange_fns[we](tyany_ptr(w), buf, wia) || buf[0]<-(i64)xn || buf[1]>=(i64)xn)) {
       bad:
       C2(select, w, x);
       fatal("select_ucw expected to error");
-- 
2.43.0


From d84f443a504f619312259c197e2bef6c17cffaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 12/34] fix: an error within an arithmetic insert left a freed
 value in its half-built result, freed again by the next garbage collection

---
 src/builtins/fold.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/builtins/fold.c b/src/builtins/fold.c
index 13eac03..cf6a938 100644
--- a/src/builtins/fold.c
+++ b/src/builtins/fold.c
@@ -493,7 +493,10 @@ static B insert_scal(B f, FC2 fc2, B x, bool has_w, B fxw, usz xia, ur rr) {
   SGet(x)
   while (xi) {
     xi -= csz;
-    for (usz i=0; i<csz; i++) r.a[i] = fc2(f, Get(x, xi+i), r.a[i]);
+    for (usz i=0; i<csz; i++) {
+      B c = r.a[i]; r.a[i] = m_f64(0); // fc2 consumes c, and may error
+      r.a[i] = fc2(f, Get(x, xi+i), c);
+    }
   }
 
   // Fill might oscillate between 0 and ' ' or error if either argument
-- 
2.43.0


From b091b46ae10b426b6cb991b37b148b973dcc10c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 13/34] fix: selecting no elements from each row leaked both
 arguments

---
 src/builtins/select.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/builtins/select.c b/src/builtins/select.c
index 3c1c709..f78012f 100644
--- a/src/builtins/select.c
+++ b/src/builtins/select.c
@@ -1178,12 +1178,12 @@ B select_rows_B(B x, ux csz, ux cam, B inds) { // consumes inds,x; ⥊ inds⊸
   assert(csz*cam == IA(x));
   if (csz==0) goto generic;
   if (cam<=1) {
-    if (cam==0) return taga(emptyVec(x));
+    if (cam==0) goto empty;
     return C2(select, inds, taga(arr_shVec(TI(x,slice)(x, 0, IA(x)))));
   }
   
   ux in = IA(inds);
-  if (in == 0) return taga(emptyVec(x));
+  if (in == 0) goto empty;
   if (in == 1) {
     B w = IGetU(inds,0); if (!isF64(w)) goto generic;
     B r = select_cells_single(WRAP_SELECT_ONE(o2i64(w), csz, "%R", w), x, cam, csz, 1);
@@ -1202,6 +1202,11 @@ B select_rows_B(B x, ux csz, ux cam, B inds) { // consumes inds,x; ⥊ inds⊸
   
   generic:;
   return select_cells_base(inds, x, csz, cam);
+  
+  empty:;
+  Arr* e = emptyVec(x);
+  decG(x); decG(inds);
+  return taga(e);
 }
 
 
-- 
2.43.0


From efc928fa4b2da4688046468965e6067e5ef85395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:57 +0000
Subject: [PATCH 14/34] fix: running out of memory in a hash map's Set or
 Delete left the map's table and lists inconsistent

---
 src/builtins/search.c | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/builtins/search.c b/src/builtins/search.c
index 88329fb..1f56c6f 100644
--- a/src/builtins/search.c
+++ b/src/builtins/search.c
@@ -640,8 +640,9 @@ static NOINLINE HashMap* hashmap_resize(HashMap* old_map) {
     j++; u64 jh = h>>sh; if (j < jh) j = jh;
     map->a[j] = h;
   }
-  mm_free((Value*)old_map);
-  return map->a[sz-1]==empty ? map : hashmap_resize(map);
+  if (map->a[sz-1]!=empty) map = hashmap_resize(map);
+  mm_free((Value*)old_map); // only after everything that can fail
+  return map;
 }
 
 static NOINLINE void hashmap_compact(B* vars) {
@@ -729,22 +730,36 @@ B hashmap_lookup(B* vars, B w, B x) {
   dec(x); return w;
 }
 
+static B hashmap_reserve(B x) { // ensure that vec_addN(x, ...) won't have to allocate
+  usz n = IA(x);
+  if (reusable(x) && fsizeof(HArr,a,B,n+1) < mm_sizeUsable(v(x))) return x;
+  HArr_p r = m_harrUv(n+2);
+  COPY_TO(r.a, el_B, 0, x, 0, n);
+  NOGC_E;
+  IA(r.b) = n;
+  decG(x);
+  return r.b;
+}
 void hashmap_set(B* vars, B w, B x) {
+  again:;
   HashMap* map = c(HashMap, vars[2]);
   u64* hp = map->a; u64 sh = map->sh;
-  usz i = IA(vars[0]);
   B* keys = harr_ptr(vars[0]);
-  HASHMAP_INSERT(
+  HASHMAP_FIND(
     w,
     B vs = vars[1]; if (!reusable(vs)) vars[1] = vs = taga(cpyHArr(vs)); FL_KEEP(vs,0); B* s = harr_ptr(vs)+i; dec(*s); dec(w); *s=x; return;
   )
-  map->pop++;
-  if (map->pop>>(64-3-sh)>7 || je==map->sz-1) { // keep load <= 7/8
-    vars[2] = bi_N; // hashmap_resize might free then alloc
-    map = hashmap_resize(map);
-    vars[2] = tag(map, OBJ_TAG);
-    // hp=map->a; sh=map->sh;
+  // Allocate everything first, as an out of memory error must leave the map as it was
+  u64 je=j; while (hp[je]!=empty) je++;
+  if ((map->pop+1)>>(64-3-sh)>7 || je==map->sz-1) { // keep load <= 7/8
+    vars[2] = tag(hashmap_resize(map), OBJ_TAG);
+    goto again;
   }
+  vars[0] = hashmap_reserve(vars[0]);
+  vars[1] = hashmap_reserve(vars[1]);
+  for (; je>j; je--) hp[je] = hp[je-1];
+  hp[j] = v | IA(vars[0]);
+  map->pop++;
   vars[0] = vec_addN(vars[0], w);
   vars[1] = vec_addN(vars[1], x);
 }
@@ -755,14 +770,14 @@ void hashmap_delete(B* vars, B x) {
   B kb = vars[0]; B* keys = harr_ptr(kb);
   HASHMAP_FIND(x,
     dec(x);
+    B vb = vars[1];
+    if (!reusable(kb)) { vars[0]=kb=taga(cpyHArr(kb)); keys=harr_ptr(kb); }
+    if (!reusable(vb)) { vars[1]=vb=taga(cpyHArr(vb)); }
     do {
       u64 jp=j; j++;
       u=hp[j]; if (u>>sh==j) u=empty;
       hp[jp]=u;
     } while (u!=empty);
-    B vb = vars[1];
-    if (!reusable(kb)) { vars[0]=kb=taga(cpyHArr(kb)); keys=harr_ptr(kb); }
-    if (!reusable(vb)) { vars[1]=vb=taga(cpyHArr(vb)); }
     FL_KEEP(kb,0); FL_KEEP(vb,0);
     usz p = --(map->pop); dec(keys[i]); keys[i]=bi_N;
     B* s = harr_ptr(vb)+i; dec(*s); *s=bi_N;
-- 
2.43.0


From cf888c0ec6b461a683bf18bddda741f286cc481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 15/34] =?UTF-8?q?fix:=20JIT:=20=E2=86=A9=20of=20an=20undef?=
 =?UTF-8?q?ined=20variable=20whose=20result=20is=20unused=20is=20an=20erro?=
 =?UTF-8?q?r?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/jit/nvm_x86_64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jit/nvm_x86_64.c b/src/jit/nvm_x86_64.c
index 8275682..c6f06c3 100644
--- a/src/jit/nvm_x86_64.c
+++ b/src/jit/nvm_x86_64.c
@@ -224,7 +224,7 @@ INS B i_SETUi(     B x, Scope* sc, u32 p, u32* bc) { POS_UPD; v_setI(sc, p, inc(
 INS B i_SETMi(B f, B x, Scope* sc, u32 p, u32* bc) { POS_UPD; B r = c2(f,v_getI(sc, p, true),x); dec(f); v_setI(sc, p, inc(r), true, false); return r; }
 INS B i_SETCi(B f,      Scope* sc, u32 p, u32* bc) { POS_UPD; B r = c1(f,v_getI(sc, p, true)  ); dec(f); v_setI(sc, p, inc(r), true, false); return r; }
 INS void i_SETNv(B x, Scope* sc, u32 p         ) {          v_setI(sc, p, x, false, false); }
-INS void i_SETUv(B x, Scope* sc, u32 p, u32* bc) { POS_UPD; v_setI(sc, p, x, true,  false); }
+INS void i_SETUv(B x, Scope* sc, u32 p, u32* bc) { POS_UPD; v_setI(sc, p, x, true,  true); }
 INS void i_SETMv(B f, B x, Scope* sc, u32 p, u32* bc) { POS_UPD; B r = c2(f,v_getI(sc, p, true),x); dec(f); v_setI(sc, p, r, true, false); }
 INS void i_SETCv(B f,      Scope* sc, u32 p, u32* bc) { POS_UPD; B r = c1(f,v_getI(sc, p, true)  ); dec(f); v_setI(sc, p, r, true, false); }
 INS B i_FLDG(B ns, u32 p, Scope* sc, u32* bc) { POS_UPD;
-- 
2.43.0


From 497db1cbf506d9637f26ba258ad1c9c41e3eeb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 16/34] fix: native compiler: reject an expression ending in an
 assignment target; check for Nothing in operands, lists, assignments, and
 results

---
 src/opt/comp.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/opt/comp.c b/src/opt/comp.c
index c519e41..c608bc5 100644
--- a/src/opt/comp.c
+++ b/src/opt/comp.c
@@ -167,6 +167,11 @@ usz addObj(B* objs, B val) { // consumes val
 }
 
 i32 nc_ty(B x) { return o2iG(IGetU(x, 0)); }
+NOINLINE void nc_joinVal(B* w, B el) { // add bytecode of the element el, in a place where Nothing isn't allowed; doesn't consume el
+  B bc = IGetU(el, 1);
+  nc_ijoin(w, bc);
+  if (nc_ty(el)==3 && IA(bc)!=2) nc_iadd(w, CHKV); // literals are always fine
+}
 
 B nc_generate(B p1) { // consumes
   // printf("p1: "); printI(p1); printf("\n");
@@ -199,7 +204,7 @@ B nc_generate(B p1) { // consumes
         if (e1t==1) {
           B bc = nc_emptyI32Vec();
           nc_ijoin(&bc, IGetU(e1, 1));
-          nc_ijoin(&bc, IGetU(e,  1));
+          nc_joinVal(&bc, e);
           nc_iadd(&bc, MD1C);
           decG(e);
           e = m_hvec2(m_f64(0), bc);
@@ -209,9 +214,9 @@ B nc_generate(B p1) { // consumes
           u8 e2t = nc_ty(e2);
           if (!(e2t==0 || e2t==3)) thrM("Native compiler: Improper 2-modifier e2 operand");
           B bc = nc_emptyI32Vec();
-          nc_ijoin(&bc, IGetU(e2, 1));
+          nc_joinVal(&bc, e2);
           nc_ijoin(&bc, IGetU(e1, 1));
-          nc_ijoin(&bc, IGetU(e,  1));
+          nc_joinVal(&bc, e);
           nc_iadd(&bc, MD2C);
           decG(e);
           e = m_hvec2(m_f64(0), bc);
@@ -233,6 +238,7 @@ B nc_generate(B p1) { // consumes
   B e = incG(GetU(p2, p2ia-1));
   usz i = p2ia-1; // pointer to last used thing
   u8 tyE = nc_ty(GetU(p2,p2ia-1));
+  if (tyE!=0 && tyE!=3) thrM("Native compiler: Unexpected assignment");
   bool explicit = tyE==3;
   
   while(i>0) {
@@ -243,7 +249,7 @@ B nc_generate(B p1) { // consumes
     if (en1t==4 || en1t==5) { // assignment
       if (!explicit && i!=1) thrM("Native compiler: Assignment in the middle of tacit code");
       B bc = nc_emptyI32Vec();
-      nc_ijoin(&bc, IGetU(e,   1));
+      nc_joinVal(&bc, e);
       nc_ijoin(&bc, IGetU(en1, 1));
       if (tyE != o2iG(IGetU(en1, 2))) thrM("Native compiler: Wrong assignment class");
       nc_iadd(&bc, en1t==4? SETN : SETU);
@@ -388,7 +394,8 @@ B nc_parseStatements(B tokens, usz i0, usz* i1, u32 close, B* objs, Vars vars) {
   for (usz i = 0; i < segAm; i++) {
     B segment = GetU(statements, i);
     if (i && close!=U'⟩') nc_iadd(&final, POPS);
-    nc_ijoin(&final, IGetU(segment, 1));
+    if (close==U'⟩' || (close=='}' && i+1==segAm)) nc_joinVal(&final, segment);
+    else nc_ijoin(&final, IGetU(segment, 1));
   }
   
   u8 type0 = segAm==1? nc_ty(GetU(statements,0)) : 99;
-- 
2.43.0


From ce9fba04d463bcabb39d26e3589ff0b43b94ad68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:09 +0000
Subject: [PATCH 17/34] =?UTF-8?q?fix:=20=E2=80=A2FromUTF8=20of=20the=20byt?=
 =?UTF-8?q?e=20=C2=AF128?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/builtins/sysfn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builtins/sysfn.c b/src/builtins/sysfn.c
index 97f79c2..ea261a5 100644
--- a/src/builtins/sysfn.c
+++ b/src/builtins/sysfn.c
@@ -1002,7 +1002,7 @@ B fromUtf8_c1(B t, B x) {
       chrs[i] = v;
     } else {
       i32 v = o2i(c);
-      if (v<=-128 | v>=256) thrF("•FromUTF8 𝕩: 𝕩 contained the number %i", v);
+      if (v<-128 | v>=256) thrF("•FromUTF8 𝕩: 𝕩 contained the number %i", v);
       chrs[i] = v&0xff;
     }
   }
-- 
2.43.0


From 6e968799f0a00a6a120551ce6108095d7870ee5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:47 +0000
Subject: [PATCH 18/34] fix: report errors of closing a written file and of
 reading a stream

---
 src/utils/file.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/utils/file.c b/src/utils/file.c
index 22696a9..d76600f 100644
--- a/src/utils/file.c
+++ b/src/utils/file.c
@@ -118,6 +118,7 @@ I8Arr* path_bytes(B path) { // consumes
   I8Arr* src;
   if (seekRes==-1) {
     src = stream_bytes(f);
+    if (ferror(f)) thrF("Error reading file \"%R\"", path);
   } else {
     i64 len = ftell(f);
     fseek(f, 0, SEEK_SET);
@@ -248,14 +249,14 @@ void free_chars(CharBuf b) {
   if (b.alloc) TFREE(b.data);
 }
 
-static u64 file_openWriteClose(B path, char* data, u64 len) {
+static bool file_openWriteClose(B path, char* data, u64 len) {
   FILE* f = file_open(path, "write to", "wb");
-  u64 written = fwrite(data, 1, len, f);
-  fclose(f);
-  return written;
+  bool ok = fwrite(data, 1, len, f) == len;
+  if (fclose(f)!=0) ok = false; // writing out buffered data can fail too
+  return ok;
 }
-static void file_checkWritten(B path, u64 written, u64 len) {
-  if (written != len) thrF("Error writing to file \"%R\"", path);
+static void file_checkWritten(B path, bool ok) {
+  if (!ok) thrF("Error writing to file \"%R\"", path);
 }
 
 void path_wChars(B path, B x) { // consumes path
@@ -263,9 +264,9 @@ void path_wChars(B path, B x) { // consumes path
   TALLOC(char, val, len);
   toUTF8(x, val);
   
-  u64 written = file_openWriteClose(path, val, len);
+  bool ok = file_openWriteClose(path, val, len);
   TFREE(val);
-  file_checkWritten(path, written, len);
+  file_checkWritten(path, ok);
   
   dec(path);
 }
@@ -273,9 +274,9 @@ void path_wBytes(B path, B x) { // consumes path
   u64 len = IA(x);
   CharBuf buf = get_chars(x);
   
-  u64 written = file_openWriteClose(path, buf.data, len);
+  bool ok = file_openWriteClose(path, buf.data, len);
   free_chars(buf);
-  file_checkWritten(path, written, len);
+  file_checkWritten(path, ok);
   
   dec(path);
 }
-- 
2.43.0


From 9cca493013122a85e677eaa72973b2f36a7043db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:47 +0000
Subject: [PATCH 19/34] fix: read files that report a size of 0 but have
 contents

---
 src/utils/file.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/utils/file.c b/src/utils/file.c
index d76600f..ff6fe4c 100644
--- a/src/utils/file.c
+++ b/src/utils/file.c
@@ -114,13 +114,12 @@ I8Arr* stream_bytes(FILE* f) {
 
 I8Arr* path_bytes(B path) { // consumes
   FILE* f = fileRef_open(file_open(path, "read", "rb"));
-  int seekRes = fseek(f, 0, SEEK_END);
+  i64 len = fseek(f, 0, SEEK_END)==-1? 0 : ftell(f);
   I8Arr* src;
-  if (seekRes==-1) {
+  if (len==0) { // not seekable, empty, or of a size that isn't known in advance (e.g. in /proc)
     src = stream_bytes(f);
     if (ferror(f)) thrF("Error reading file \"%R\"", path);
   } else {
-    i64 len = ftell(f);
     fseek(f, 0, SEEK_SET);
     i8* rp;
     src = (I8Arr*) a(m_i8arrv(&rp, len));
-- 
2.43.0


From 9be7dc8068c1975adb5132282f111fc8bbdba599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:47 +0000
Subject: [PATCH 20/34] =?UTF-8?q?fix:=20=E2=80=A2file.MapBytes=20of=20an?=
 =?UTF-8?q?=20empty=20file?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/utils/file.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/file.c b/src/utils/file.c
index ff6fe4c..e7151fe 100644
--- a/src/utils/file.c
+++ b/src/utils/file.c
@@ -352,6 +352,10 @@ B mmap_file(B path) {
   freeCStr(p);
   if (fd==-1) thrF("Failed to open file: %S", strerror(errno));
   u64 len = lseek(fd, 0, SEEK_END);
+  if (len==0) { // mmap doesn't accept a length of 0
+    close(fd);
+    return emptyCVec();
+  }
   
   u64 pgsz = getPageSize();
   u64 head = pgsz;
-- 
2.43.0


From 0248c4274ea6260efaf3a8e6d76f30376138365a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:09 +0000
Subject: [PATCH 21/34] =?UTF-8?q?fix:=20=E2=80=A2FBytes=20of=20an=20empty?=
 =?UTF-8?q?=20stream=20changed=20the=20shared=20empty=20list=20of=20number?=
 =?UTF-8?q?s?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/utils/file.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/file.c b/src/utils/file.c
index e7151fe..ca5513c 100644
--- a/src/utils/file.c
+++ b/src/utils/file.c
@@ -109,6 +109,10 @@ I8Arr* stream_bytes(FILE* f) {
     r = vec_join(r, a);
   }
   TFREE(t);
+  if (IA(r)==0) { // callers may modify the result, so it can't be the shared empty list
+    decG(r);
+    i8* ap; r = m_i8arrv(&ap, 0);
+  }
   return toI8Arr(r);
 }
 
-- 
2.43.0


From d7e8af755a6b3072f5495121f7e49073023a2ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:12 +0000
Subject: [PATCH 22/34] =?UTF-8?q?fix:=20=E2=80=A2bit=20functions=20on=20ar?=
 =?UTF-8?q?rays=20of=20generic=20elements=20and=20characters?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/builtins/bit.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/builtins/bit.c b/src/builtins/bit.c
index 08bfda0..4afaf29 100644
--- a/src/builtins/bit.c
+++ b/src/builtins/bit.c
@@ -24,6 +24,13 @@ typedef void (*AndBytesFn)(u8*, u8*, u64, u64);
 
 
 typedef struct CastType { usz s; bool c; } CastType;
+static B bitArg(B x, char* name) { // consumes; makes sure the element type of x shows whether it's numbers or characters
+  if (TI(x,elType)==el_B) {
+    x = squeeze_any(x);
+    if (TI(x,elType)==el_B && IA(x)!=0) thrF("•bit._%U: Arguments must contain only numbers or only characters", name);
+  }
+  return x;
+}
 static bool isCharArr(B x) {
   return elChr(TI(x,elType));
 }
@@ -50,6 +57,8 @@ static CastType getCastType(B e, bool hasVal, B val) { // returns a valid type (
   
 }
 static B convert(CastType t, B x, char* name) {
+  bool c = isCharArr(x);
+  if (IA(x)!=0 && c != (t.c && t.s!=1 && t.s!=64)) thrF("•bit._%U: Cannot interpret %S with width %i", name, c? "characters" : "numbers", (i32)t.s);
   switch (t.s) { default: thrF("•bit._%U: Unsupported data width %i", name, t.s);
     case  1: return taga(toBitArr(x));
     case  8: return t.c ? toC8Any (x) : toI8Any (x);
@@ -103,6 +112,7 @@ B bitcast_impl(B el0, B el1, B x) {
   ur xr;
   if (!isArr(x) || (xr=RNK(x))<1) thrM("•bit._cast: 𝕩 must have rank at least 1");
   
+  x = bitArg(x, "cast");
   CastType xct = getCastType(el0, true, x);
   CastType rct = getCastType(el1, false, m_f64(0));
   usz* sh = SH(x);
@@ -197,6 +207,7 @@ static B bitop1(B f, B x, enum BitOp1 op, char* name) {
   ur xr;
   if (!isArr(x) || (xr=RNK(x))<1) thrF("•bit._%U: 𝕩 must have rank at least 1", name);
   
+  x = bitArg(x, name);
   usz* sh = SH(x);
   usz rws = CTZ(rw);
   usz xws = CTZ(xw);
@@ -266,6 +277,8 @@ static B bitop2(B f, B w, B x, enum BitOp2 op, char* name) {
   
   if (isAtm(x)) x = m_unit(x);
   if (isAtm(w)) w = m_unit(w);
+  x = bitArg(x, name);
+  w = bitArg(w, name);
   ur wr=RNK(w); usz* wsh = SH(w); u64 s = wr==0? ww : ww*(u64)wsh[wr-1];
   ur xr=RNK(x); usz*  sh = SH(x); u64 t = xr==0? xw : xw*(u64) sh[xr-1];
   bool negw = 0; // Negate 𝕨 to subtract from 𝕩
-- 
2.43.0


From 0c644ebe77d47ee57ed46e4a372d629c310edbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:23 +0000
Subject: [PATCH 23/34] =?UTF-8?q?fix:=20=E2=80=A2SH=20with=20a=20process?=
 =?UTF-8?q?=20that=20doesn't=20read=20its=20input,=20interrupted=20calls,?=
 =?UTF-8?q?=20and=20failures=20to=20start?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/builtins/sysfn.c | 89 ++++++++++++++++++++++++++++++--------------
 1 file changed, 62 insertions(+), 27 deletions(-)

diff --git a/src/builtins/sysfn.c b/src/builtins/sysfn.c
index ea261a5..829bc49 100644
--- a/src/builtins/sysfn.c
+++ b/src/builtins/sysfn.c
@@ -1027,12 +1027,25 @@ B toUtf8_c1(B t, B x) {
 #include <spawn.h>
 #include <fcntl.h>
 #include <sys/wait.h>
+#include <signal.h>
 #include <poll.h>
 #if !defined(environ)
 extern char** environ;
 #endif
 typedef struct pollfd pollfd;
 void shClose(int fd) { if (close(fd)) fatal("bad file descriptor close"); }
+static void shClosePipe(int* p) { shClose(p[0]); shClose(p[1]); }
+static ssize_t shWrite(int fd, char* data, u64 len) { // write, without being killed by SIGPIPE if the process won't read the data
+  struct sigaction ign, prev;
+  memset(&ign, 0, sizeof(ign));
+  ign.sa_handler = SIG_IGN;
+  sigaction(SIGPIPE, &ign, &prev);
+  ssize_t r = write(fd, data, len);
+  int e = errno;
+  sigaction(SIGPIPE, &prev, NULL);
+  errno = e;
+  return r;
+}
 
 // #define shDbg(...) printf(__VA_ARGS__); fflush(stdout)
 #define shDbg(...)
@@ -1052,11 +1065,31 @@ static i32 sh_core(bool raw, B x, usz xia, B inObj, u64 iLen, B* s_outp, B* s_er
   }
   argv[xia] = NULL;
   
+  // allocate stdin
+  u64 iOff = 0;
+  char* iBuf;
+  CharBuf iBufRaw;
+  if (iLen>0) {
+    if (raw) {
+      iBufRaw = get_chars(inObj);
+      iBuf = iBufRaw.data;
+    } else {
+      iBuf = TALLOCP(char, iLen);
+      toUTF8(inObj, iBuf);
+    }
+  } else iBuf = "";
+  #define FREE_INPUT do { if (iLen>0) { if (raw) free_chars(iBufRaw); else TFREE(iBuf); } } while(0)
+  
   // create pipes
   int p_in[2];
   int p_out[2];
   int p_err[2];
-  if (pipe(p_in) || pipe(p_out) || pipe(p_err)) thrM("•SH: Failed to create process: Couldn't create pipes"); // TODO these pipes will easily leak
+  i32 pipes = pipe(p_in)? 0 : pipe(p_out)? 1 : pipe(p_err)? 2 : 3;
+  if (pipes!=3) {
+    if (pipes>0) shClosePipe(p_in);
+    if (pipes>1) shClosePipe(p_out);
+    thrM("•SH: Failed to create process: Couldn't create pipes");
+  }
   shDbg("pipes: %d %d %d %d %d %d\n", p_in[0], p_in[1], p_out[0], p_out[1], p_err[0], p_err[1]);
   fcntl(p_in[1], F_SETFL, O_NONBLOCK); // make our side of pipes never block because we're working on multiple
   fcntl(p_out[0], F_SETFL, O_NONBLOCK);
@@ -1070,8 +1103,12 @@ static i32 sh_core(bool raw, B x, usz xia, B inObj, u64 iLen, B* s_outp, B* s_er
   
   // spawn the actual process
   pid_t pid;
-  if(posix_spawnp(&pid, argv[0], &a, NULL, argv, environ) != 0) thrF("•SH: Failed to create process: %S", strerror(errno));
+  int spawnErr = posix_spawnp(&pid, argv[0], &a, NULL, argv, environ);
   posix_spawn_file_actions_destroy(&a); // used now
+  if (spawnErr != 0) {
+    shClosePipe(p_in); shClosePipe(p_out); shClosePipe(p_err);
+    thrF("•SH: Failed to create process: %S", strerror(spawnErr));
+  }
   shClose(p_in[0]); // close the useless pipes on this side
   shClose(p_out[1]);
   shClose(p_err[1]);
@@ -1080,21 +1117,6 @@ static i32 sh_core(bool raw, B x, usz xia, B inObj, u64 iLen, B* s_outp, B* s_er
   for (u64 i = 0; i < xia; i++) TFREE(argv[i]);
   TFREE(argv);
   
-  // allocate stdin
-  u64 iOff = 0;
-  char* iBuf;
-  CharBuf iBufRaw;
-  if (iLen>0) {
-    if (raw) {
-      iBufRaw = get_chars(inObj);
-      iBuf = iBufRaw.data;
-    } else {
-      iBuf = TALLOCP(char, iLen);
-      toUTF8(inObj, iBuf);
-    }
-  } else iBuf = "";
-  #define FREE_INPUT do { if (iLen>0) { if (raw) free_chars(iBufRaw); else TFREE(iBuf); } } while(0)
-  
   bool iDone = false;
   // allocate output buffer
   B s_out = emptyCVec();
@@ -1113,27 +1135,40 @@ static i32 sh_core(bool raw, B x, usz xia, B inObj, u64 iLen, B* s_outp, B* s_er
   ps[out_i = plen++] = (pollfd){.fd=p_out[0], .events=POLLIN};
   ps[in_i  = plen++] = (pollfd){.fd=p_in[1], .events=POLLOUT};
   
-  while (poll(&ps[0], plen - iDone, -1) > 0) {
-    shDbg("next poll; revents: out:%d err:%d in:%d\n", ps[0].revents, ps[1].revents, ps[2].revents);
+  while (true) {
+    if (poll(&ps[0], plen, -1) <= 0) {
+      if (errno==EINTR) continue;
+      break;
+    }
+    shDbg("next poll; revents: out:%d err:%d in:%d\n", ps[out_i].revents, ps[err_i].revents, ps[in_i].revents);
     bool any = false;
-    if (ps[out_i].revents & POLLIN) while(true) { i64 len = read(p_out[0], &oBuf[0], bufsz); shDbg("read stdout "N64d"\n",len); if(len<=0) break; else any=true; *oBufIA = len; s_out = vec_join(s_out, incG(oBufObj)); }
-    if (ps[err_i].revents & POLLIN) while(true) { i64 len = read(p_err[0], &oBuf[0], bufsz); shDbg("read stderr "N64d"\n",len); if(len<=0) break; else any=true; *oBufIA = len; s_err = vec_join(s_err, incG(oBufObj)); }
-    if (!iDone && ps[in_i].revents & POLLOUT) {
+    #define SH_READ(FD, I, DST) if (ps[I].revents) while(true) { \
+      i64 len = read(FD, &oBuf[0], bufsz); shDbg("read "#I" "N64d"\n",len); \
+      if (len>0) { any=true; *oBufIA = len; DST = vec_join(DST, incG(oBufObj)); continue; } \
+      if (len==0 || (errno!=EAGAIN && errno!=EINTR)) ps[I].fd = -1; /* end of data; stop polling for it */ \
+      break; \
+    }
+    SH_READ(p_out[0], out_i, s_out)
+    SH_READ(p_err[0], err_i, s_err)
+    #undef SH_READ
+    if (!iDone && ps[in_i].revents) {
       shDbg("writing "N64u"\n", iLen-iOff);
-      ssize_t ww = write(p_in[1], iBuf+iOff, iLen-iOff);
+      ssize_t ww = shWrite(p_in[1], iBuf+iOff, iLen-iOff);
       shDbg("written %zd/"N64u"\n", ww, iLen-iOff);
       if (ww >= 0) {
         iOff+= ww;
-        if (iOff==iLen) { iDone=true; shClose(p_in[1]); FREE_INPUT; shDbg("writing done\n"); }
         any = true;
       }
+      if (iOff==iLen || (ww<0 && errno!=EAGAIN && errno!=EINTR)) { // everything's written, or nobody's going to read it
+        iDone = true; ps[in_i].fd = -1; shClose(p_in[1]); FREE_INPUT; shDbg("writing done\n");
+      }
     }
     #ifdef __CYGWIN__
     if (!any) { shDbg("no events despite poll returning; end\n"); break; }
     #else
     (void)any;
     #endif
-    if (ps[out_i].revents & POLLHUP  &&  ps[err_i].revents & POLLHUP) { shDbg("HUP end\n"); break; }
+    if (iDone && ps[out_i].fd==-1 && ps[err_i].fd==-1) { shDbg("HUP end\n"); break; }
   }
   
   // free output buffer
@@ -1147,8 +1182,8 @@ static i32 sh_core(bool raw, B x, usz xia, B inObj, u64 iLen, B* s_outp, B* s_er
   shClose(p_out[0]);
   shClose(p_err[0]);
   
-  int status;
-  waitpid(pid, &status, 0);
+  int status = 0;
+  while (waitpid(pid, &status, 0)==-1 && errno==EINTR);
   
   *s_outp = s_out;
   *s_errp = s_err;
-- 
2.43.0


From e6dcac175e5dea7b617efa9b41f47d16f6d9a7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:12 +0000
Subject: [PATCH 24/34] =?UTF-8?q?fix:=20fill=20leaked=20by=20=E2=80=A2inte?=
 =?UTF-8?q?rnal.Unshare=20and=20by=20validating=20squeezed=20arrays?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/builtins/internal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builtins/internal.c b/src/builtins/internal.c
index 9115468..a7beae4 100644
--- a/src/builtins/internal.c
+++ b/src/builtins/internal.c
@@ -274,7 +274,7 @@ static B unshare(B x) { // doesn't consume
     }
     case t_fillarr: case t_fillslice: {
       Arr* r = arr_shCopy(m_fillarr0p(xia), x);
-      fillarr_setFill(r, unshare(getFillR(x)));
+      fillarr_setFill(r, unshare(getFillN(x)));
       B* rp = fillarrv_ptr(r);
       B* xp = arr_bptrG(x);
       for (usz i = 0; i < xia; i++) rp[i] = unshare(xp[i]);
-- 
2.43.0


From eb353d5459585c8428b503df6f8005d915af5701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:30 +0000
Subject: [PATCH 25/34] fix: FFI pointer writes of reinterpreted scalars must
 not write past the element

---
 src/ffi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffi.c b/src/ffi.c
index 11fd5be..afcf302 100644
--- a/src/ffi.c
+++ b/src/ffi.c
@@ -797,7 +797,7 @@ void genObj(B o, B c, void* ptr, B* sourceObjs) { // doesn't consume
         if (isAtm(c)) thrF("FFI: Expected array corresponding to %R", ty_fmt(o));
         if (IA(c) != mul) thrF("FFI: Bad array corresponding to %R: expected %s elements, got %s", ty_fmt(o), (usz)mul, IA(c));
         B cG = toW(reT, reW, incG(c));
-        memcpy(ptr, tyany_ptr(cG), 8); // may over-read, but CBQN-allocations allow that; may write past the end, but that's fine too? maybe? idk actually; TODO
+        memcpy(ptr, tyany_ptr(cG), elSz);
         decG(cG);
       } else { // *scalar:any / &scalar:any / *:any / **:any
         BQNFFIType* t2 = c(BQNFFIType, o2);
-- 
2.43.0


From 05966cf88bb46d4ea13f2e4d831294d3ed3ea761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:49 +0000
Subject: [PATCH 26/34] fix: appending to an empty array must not keep its
 squeezed flag

---
 src/utils/mut.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/mut.h b/src/utils/mut.h
index 7562c40..2d4057f 100644
--- a/src/utils/mut.h
+++ b/src/utils/mut.h
@@ -199,7 +199,7 @@ FORCE_INLINE B arr_join_inline(B w, B x, bool consume, bool* usedW) {
   if (consume) decG(x);
   *usedW = true;
   a(w)->ia = ria;
-  return FL_KEEP(w,fl_squoze); // keeping fl_squoze as appending items can't make the largest item smaller
+  return FL_KEEP(w, wia==0? 0 : fl_squoze); // keeping fl_squoze as appending items can't make the largest item smaller; an empty array has none
 }
 
 static inline bool inplace_add(B w, B x) { // consumes x if returns true; fails if fills wouldn't be correct
@@ -225,7 +225,7 @@ static inline bool inplace_add(B w, B x) { // consumes x if returns true; fails
   }
   return false;
   ok:
-  a(FL_KEEP(w,fl_squoze))->ia = ria;
+  a(FL_KEEP(w, wia==0? 0 : fl_squoze))->ia = ria;
   return true;
 }
 B vec_addF(B w, B x);
-- 
2.43.0


From e012983aa93be17176c9564478271a54ed80981d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:49 +0000
Subject: [PATCH 27/34] =?UTF-8?q?fix:=20=E2=8A=91=20must=20reject=20an=20e?=
 =?UTF-8?q?mpty=20=F0=9D=95=A8=20of=20rank=20other=20than=201=20whatever?=
 =?UTF-8?q?=20its=20storage=20type?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/builtins/sfns.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/builtins/sfns.c b/src/builtins/sfns.c
index ba88adf..d621881 100644
--- a/src/builtins/sfns.c
+++ b/src/builtins/sfns.c
@@ -438,6 +438,7 @@ static B recPick(B w, B x) { // doesn't consume
     case el_c8: case el_c16: case el_c32: case el_bit:
     case el_B: {
       if (ia==0) {
+        if (RNK(w)!=1) goto wrr;
         if (xr!=0) thrM("𝕨⊑𝕩: 𝕩 must be a unit if 𝕨 contains an empty array");
         return IGet(x,0);
       }
-- 
2.43.0


From 2c67c13b6267bc10e7477180527183a970b4e01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:46 +0000
Subject: [PATCH 28/34] fix: reject typed arrays too large to allocate instead
 of overflowing their size

---
 src/utils/mut.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/mut.c b/src/utils/mut.c
index f4189c3..53a0f5f 100644
--- a/src/utils/mut.c
+++ b/src/utils/mut.c
@@ -5,10 +5,10 @@ FORCE_INLINE UntaggedArr mut_make_arr(u64 ia, u8 type, u8 el) {
   u64 sz;
   switch(el) { default: UD;
     case el_bit:              sz = BITARR_SZ(   ia); CHECK_BITARR_IA(ia); break;
-    case el_i8:  case el_c8:  sz = TYARR_SZ(I8, ia); break;
-    case el_i16: case el_c16: sz = TYARR_SZ(I16,ia); break;
-    case el_i32: case el_c32: sz = TYARR_SZ(I32,ia); break;
-    case el_f64:              sz = TYARR_SZ(F64,ia); break;
+    case el_i8:  case el_c8:  sz = TYARR_SZ(I8, ia); CHECK_IA(ia, 1); break;
+    case el_i16: case el_c16: sz = TYARR_SZ(I16,ia); CHECK_IA(ia, 2); break;
+    case el_i32: case el_c32: sz = TYARR_SZ(I32,ia); CHECK_IA(ia, 4); break;
+    case el_f64:              sz = TYARR_SZ(F64,ia); CHECK_IA(ia, 8); break;
     case el_B:;
       HArr_p t = m_harrUp(ia);
       return (UntaggedArr){(Arr*)t.c, t.c->a};
-- 
2.43.0


From 94b1269000ed8f742b6f77456c1095bff57a20f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:48 +0000
Subject: [PATCH 29/34] fix: error on a replicate whose nested result size
 overflows instead of writing out of bounds

---
 src/builtins/slash.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/builtins/slash.c b/src/builtins/slash.c
index 635cdb7..0c508e7 100644
--- a/src/builtins/slash.c
+++ b/src/builtins/slash.c
@@ -675,8 +675,7 @@ B slash_c2(B t, B w, B x) {
       B xf = getFillR(x);
       ux ria = s;
       usz csz = arr_csz(x);
-      mulOn(ria, csz);
-      if (s>=USZ_MAX) thrOOM();
+      if (s>=USZ_MAX || mulOn(ria, csz)) thrOOM();
       MAKE_MUT_INIT(r0, ria, TI(x,elType)); MUTG_INIT(r0);
       SGetU(w)
       B wc; usz ri=0;
-- 
2.43.0


From ecfbf385f4514aa0b8784c022181ade934b3050a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:44 +0000
Subject: [PATCH 30/34] fix: error when a product of frame or cell axes
 overflows, instead of making a malformed array

---
 src/builtins/cells.c | 10 +++++-----
 src/builtins/fold.c  | 13 +++++++------
 src/builtins/sfns.c  |  2 +-
 src/core/stuff.h     |  9 +++++++++
 4 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/builtins/cells.c b/src/builtins/cells.c
index 2a287d9..b18e262 100644
--- a/src/builtins/cells.c
+++ b/src/builtins/cells.c
@@ -181,7 +181,7 @@ NOINLINE B toCells(B x) {
 NOINLINE B toKCells(B x, ur k) {
   assert(isArr(x) && k<=RNK(x));
   usz* xsh = SH(x);
-  usz cam = shProd(xsh, 0, k);
+  usz cam = shProdC(xsh, 0, k);
   
   B r;
   if (cam==0) {
@@ -433,7 +433,7 @@ static u8 reverse_inds_64[128] = {63,62,61,60,59,58,57,56,55,54,53,52,51,50,49,4
 B for_cells_c1(B f, u32 xr, u32 cr, u32 k, B x, u32 chr) { // F⎉cr x; array x, xr>0, 0≤cr<xr, k≡xr-cr
   assert(isArr(x) && xr>0 && k>0 && cr<xr && k == xr-cr);
   usz* xsh = SH(x);
-  usz cam = shProd(xsh, 0, k); // from k>0 this will always include at least one item of shape; therefore, cam≡0 → IA(x)≡0 and IA(x)≢0 → cam≢0
+  usz cam = shProdC(xsh, 0, k); // from k>0 this will always include at least one item of shape; therefore, cam≡0 → IA(x)≡0 and IA(x)≢0 → cam≢0
   if (isFun(f)) {
     u8 rtid = RTID(f);
     switch(rtid) {
@@ -683,7 +683,7 @@ SHOULD_INLINE bool unpack_unit(B* r) {
 NOINLINE B for_cells_AS(B f, B w, B x, ur wcr, ur wr, u32 chr) { // F⟜x⎉wcr w; array w, wr>0, 0≤wcr<wr, k≡wr-wcr
   assert(isArr(w));
   ur wk = wr-wcr; assert(wk>0 && wcr<wr);
-  usz* wsh=SH(w); usz cam=shProd(wsh,0,wk);
+  usz* wsh=SH(w); usz cam=shProdC(wsh,0,wk);
   if (cam==0) return rank2_empty(f, w, wk, x, 0, chr);
   if (isFun(f)) {
     u8 rtid = RTID(f);
@@ -715,7 +715,7 @@ NOINLINE B for_cells_AS(B f, B w, B x, ur wcr, ur wr, u32 chr) { // F⟜x⎉wcr
 NOINLINE B for_cells_SA(B f, B w, B x, ur xcr, ur xr, u32 chr) { // w⊸F⎉xcr x; array x, xr>0, 0≤xcr<xr, k≡xr-xcr
   assert(isArr(x));
   ur xk = xr-xcr; assert(xk>0 && xcr<xr);
-  usz* xsh=SH(x); usz cam=shProd(xsh,0,xk);
+  usz* xsh=SH(x); usz cam=shProdC(xsh,0,xk);
   if (cam==0) return rank2_empty(f, w, 0, x, xk, chr);
   if (isFun(f)) {
     u8 rtid = RTID(f);
@@ -838,7 +838,7 @@ NOINLINE B for_cells_AA(B f, B w, B x, ur wcr, ur xcr, u32 chr) { // w F⎉wcr
     cam0*= wsh[i];
   }
   usz ext = shProd(zsh, k, zk);
-  usz cam = cam0*ext;
+  usz cam = shProdC(zsh, 0, zk);
   
   if (cam==0) return rank2_empty(f, w, wk, x, xk, chr);
   
diff --git a/src/builtins/fold.c b/src/builtins/fold.c
index cf6a938..9465ad3 100644
--- a/src/builtins/fold.c
+++ b/src/builtins/fold.c
@@ -533,7 +533,7 @@ B insert_c1(Md1D* d, B x) { B f = d->f;
       if (!q_N(id)) {
         if (isArr(id)) { decG(x); return id; } // arithmetic with table
         usz* xsh = SH(x);
-        Arr* r = reshape_one(shProd(xsh, 1, xr), id);
+        Arr* r = reshape_one(shProdC(xsh, 1, xr), id);
         if (xr == 2) arr_shVec(r); else {
           usz* rsh = arr_shAlloc(r, xr-1);
           shcpy(rsh, xsh+1, xr-1);
@@ -676,14 +676,15 @@ B insert_cells_identity(B x, B f, usz* xsh, ur xr, ur k, u8 rtid) {
   B id;
   if (!isFun(f) || q_N(id = TI(f,identity)(f))) thrF("%c: Identity not found", rtid==n_fold? U'´' : U'˝');
   bool cs = !isArr(id); // if x cell shape is used (not table)
-  usz ria = shProd(xsh, 0, k);
-  if (cs) ria*= shProd(xsh, k+1, xr);
+  usz rsh0[UR_MAX]; // result shape
+  ur rr = k;
+  shcpy(rsh0, xsh, k);
+  if (cs) { rr = xr-1; shcpy(rsh0+k, xsh+k+1, rr-k); }
+  usz ria = shProdC(rsh0, 0, rr);
   Arr* r = reshape_one(ria, id);
-  ur rr = cs? xr-1 : k;
   if (rr == 1) arr_shVec(r); else {
     usz* rsh = arr_shAlloc(r, rr);
-    shcpy(rsh, xsh, k);
-    if (cs) shcpy(rsh+k, xsh+k+1, rr-k);
+    shcpy(rsh, rsh0, rr);
   }
   decG(x); return taga(r);
 }
diff --git a/src/builtins/sfns.c b/src/builtins/sfns.c
index d621881..10ec130 100644
--- a/src/builtins/sfns.c
+++ b/src/builtins/sfns.c
@@ -694,8 +694,8 @@ NOINLINE B takedrop_highrank(bool take, B w, B x) {
   ur xr = RNK(x);         \
   usz csz=1; usz* xsh ONLY_GCC(=0); \
   if (xr>1) {             \
-    csz = arr_csz(x);     \
     xsh = SH(x);          \
+    csz = TAKE && n!=0? shProdC(xsh, 1, xr) : arr_csz(x); \
     if (mulOn(n, csz)) thrOOM(); \
     ptr_inc(shObjS(xsh)); /* TODO handle leak if further allocation fails */ \
   } else xr=1;            \
diff --git a/src/core/stuff.h b/src/core/stuff.h
index 13ce7d8..b50bbc1 100644
--- a/src/core/stuff.h
+++ b/src/core/stuff.h
@@ -232,6 +232,15 @@ B m_vec2(B a, B b); // incomplete fills
 
 #define addOn(V,X) ({ AUTO v_ = &(V); __builtin_add_overflow(*v_, X, v_); })
 #define mulOn(V,X) ({ AUTO v_ = &(V); __builtin_mul_overflow(*v_, X, v_); })
+static usz shProdC(usz* sh, usz s, usz e) { // shProd, but throws if the product doesn't fit in usz
+  usz r = 1; bool bad = false;
+  for (i32 i = s; i < e; i++) {
+    if (sh[i]==0) return 0;
+    bad|= mulOn(r, sh[i]);
+  }
+  if (bad) thrOOM();
+  return r;
+}
 
 static usz uszMul(usz a, usz b) {
   if (mulOn(a, b)) thrM("Size too large");
-- 
2.43.0


From 42a36a2f3d89beb4f5725ea11da9ce84eebeefee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:22 +0000
Subject: [PATCH 31/34] fix: reject -M arguments whose byte count overflows

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index c89918e..8d632b7 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1004,8 +1004,8 @@ int main(int argc, char* argv[]) {
               while (*str) {
                 char c = *str++;
                 if (c<'0' | c>'9') { printf("%s: -M: Argument not a number\n", argv[0]); exit(1); }
-                if (am>1ULL<<48) { printf("%s: -M: Too large\n", argv[0]); exit(1); }
                 am = am*10 + c-48;
+                if (am >= 1ULL<<44) { printf("%s: -M: Too large\n", argv[0]); exit(1); }
               }
               mm_heapMax = am*1024*1024;
               break;
-- 
2.43.0


From 09c0fc12b1c4fc9a498ec854535b157e0b41bb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:22 +0000
Subject: [PATCH 32/34] =?UTF-8?q?fix:=20let=20=E2=80=A2GetLine=20read=20li?=
 =?UTF-8?q?nes=20with=20NUL=20characters=20whole?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/builtins/sysfn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/builtins/sysfn.c b/src/builtins/sysfn.c
index 829bc49..f88f3b5 100644
--- a/src/builtins/sysfn.c
+++ b/src/builtins/sysfn.c
@@ -977,11 +977,11 @@ B getLine_c1(B t, B x) {
   char* ln = NULL;
   size_t gl = 0;
   i64 read = getline(&ln, &gl, stdin);
-  if (read<=0 || ln[0]==0) {
+  if (read<=0) {
     if (ln) free(ln);
     return m_c32(0);
   }
-  u64 len = strlen(ln);
+  u64 len = read;
   if (len && ln[len-1]=='\n') len--;
   if (len && ln[len-1]=='\r') len--;
   B r = utf8Decode(ln, len);
-- 
2.43.0


From f85397e6ff0aa9889bde1c9a2baa456f47516596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:26 +0000
Subject: [PATCH 33/34] fix: round decimals with powers of two in their last
 digits correctly

---
 src/utils/ryu.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/ryu.c b/src/utils/ryu.c
index 8bc146e..6a27494 100644
--- a/src/utils/ryu.c
+++ b/src/utils/ryu.c
@@ -583,7 +583,7 @@ bool ryu_s2d_n(u8* buffer, int len, f64* result) {
     assert(-e10 < DOUBLE_POW5_INV_TABLE_SIZE);
     m2 = mulShift64(m10, DOUBLE_POW5_INV_SPLIT[-e10], j);
 #endif
-    trailingZeros = multipleOfPowerOf5(m10, -e10);
+    trailingZeros = multipleOfPowerOf5(m10, -e10) && (e2 < e10 || (e2 - e10 < 64 && multipleOfPowerOf2(m10, e2 - e10)));
   }
 
 #ifdef RYU_DEBUG
-- 
2.43.0


From 4f0f4daaccb482d31149ecdec8263445c5bc2cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:26 +0000
Subject: [PATCH 34/34] =?UTF-8?q?fix:=20let=20=E2=80=A2ns.Get=20and=20?=
 =?UTF-8?q?=E2=80=A2ns.Has=20normalise=20names=20stored=20as=20boxed=20cha?=
 =?UTF-8?q?racters?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/builtins/sysfn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builtins/sysfn.c b/src/builtins/sysfn.c
index f88f3b5..c2a0c2c 100644
--- a/src/builtins/sysfn.c
+++ b/src/builtins/sysfn.c
@@ -1401,7 +1401,7 @@ static NOINLINE B name_normalize(B x) {
     u32 c0 = o2cG(GetU(x, i));
     if (name_isUpper(c0) || c0=='_') {
       u32* rp; B r = m_c32arrv(&rp, ia);
-      COPY_TO(rp, el_c32, 0, x, 0, i);
+      for (ux j = 0; j < i; j++) rp[j] = o2cG(GetU(x, j));
       while (i < ia) {
         u32 c = o2cG(GetU(x, i));
         rp[i] = name_isUpper(c) && c!=U'×'? c+32 : c;
-- 
2.43.0

