// C16 garbage collection is invisible, C17 destructors run exactly once, C18 heap allocation.
#include "nj.h"
// ---------------------------------------------------------------- programs interrupted by collections
static long long gc_k[2]; static long long gc_n; static bool gc_on; static int gc_every;
static bool gc_cb(Runtime *r, void *d) { (void)d; if (!gc_on) return true; gc_n++; if (gc_n == gc_k[0] || gc_n == gc_k[1] || (gc_every && gc_n % gc_every == 0)) { Error e; Error_Init(&e); bool ok = Runtime_CollectGarbage(r, &e); sym_check(ok, "a collection in a big enough heap succeeds"); Error_Free(&e); } return true; }
static const char *const GP[] = {
  /* 0 sharing */ "a=[A,B]; b=a; c=[a,b,[a]]; b[0]=B; a[2]=S; c[2][0][1]=A; out(a[0],a[1],a[2],c[0][0],c[1][2],count(a),count(c[2][0]));",
  /* 1 cycles */ "l=[A]; l[1]=l; m={x:l}; m.m=m; l[2]=m; out(l[1][1][2].m.x[0],count(l),m.m.m.x[1][0]); l[0]=B; out(m.x[0],l[2].x[1][0]);",
  /* 2 map growth */ "m={}; i=0; while i<7: { m[i*8]=A; m[string.cat('k',string.chr(97+i))]=[i,B]; i=i+1; } out(count(m),m[48],m['kc'][0],m['kg'][1],m['zz']); m[16]=S; out(m[16],m[24],count(m));",
  /* 3 closures */ "fun mk() { n=[A]; fun inc() { n[0]=n[0]; n[count(n)]=B; return count(n); } fun get() { return n; } return inc,get; } i,g=mk(); j,h=mk(); out(i(),i(),j(),count(g()),count(h()),g()[2],h()[0]);",
  /* 4 buffers */ "b=buffer.new(6); s=buffer.sliceUp(b,1,4); t=buffer.sliceUp(s,1,2); b=none; t[0]=65; s[0]=66; t[1]=67; s[3]=68; out(buffer.toString(s),count(t)); u=buffer.fromString(S); s[2]=u[0]; out(t[1],u[0]);",
  /* 5 calls in flight */ "fun f(a,b=B,c=[A]) { l=[a,b,c[0]]; return a,l[1],c,l; } fun g(x) { p,q,r,s=f(x); t,u=f(q,[p],[r[0]]); return p,u[0],r[0],s[2],t; } v,w,x,y,z=g(S); out(v,w,x,y,z,g([A])[0]);",
  /* 6 recursion */ "fun d(n,l) { if n<=0: return l; l[count(l)]=[n,A]; k=d(n-1,l); k[count(k)]=B; return k; } r=d(3,[]); out(count(r),r[0][0],r[2][1],r[3],r[5]);",
  /* 7 types */ "T=int|String|None; U=?[int]; V={a:int,b:T}; out(istypeof(T,A),istypeof(U,[B]),istypeof(U,none),istypeof(V,{a:A,b:S}),istypeof(V,{a:S})); fun f(x:T|float=1) return x; out(f(S),f(),f(A)); W=[T,U]; out(istypeof(W,[A,none]),type(T),type(W));",
  /* 8 strings */ "s=''; i=0; while i<4: { s=string.cat(s,S,toString(i)); i=i+1; } out(count(s),s[1],s,string.slice(s,1,2),string.trim(string.cat(' ',s)),s==s);",
  /* 9 iteration */ "m={a:A,b:[B],c:S}; it=makeIterator([A,m,S]); x,k=it->next(); y,k2,i2=it->next(); z=it->next(); out(x,y.c,z,k,k2,i2,it->next()); ks=keysof(m); i=0; while i<count(ks): { out(ks[i],type(m[ks[i]])==List); i=i+1; }",
  /* 10 held natives */ "c=string.cat; n=buffer.new; p=[c,n,print,append]; l=[]; p[3](l,A); p[3](l,p[0](S,'x')); out(l[0],l[1],count(n(3)),count(p),l); q={f:c}; out(q.f(l[1],S)); r=q.f(); out(r);",
  /* 11 import */ "f=import('gcmod.noja'); out(f.v[0],f.w); out(f.get(A),f.get(S),f.n()); g=f.get; f=none; out(g([B])[0]);",
  /* 12 nested imports */ "x=import('gcmid.noja'); out(x.z.v[1],x.k(A)[0],count(x.l));",
};
static const char GCMOD[] = "v=[1,2]; w='str'; c=0; l=[v]; fun get(x) { l[count(l)]=[x]; return x; } fun n() { return count(l); } i=0; while i<3: { t={a:[i]}; i=i+1; }";
static const char GCMID[] = "z=import('gcmod.noja'); l=[z.v,z.w]; fun k(x) { return [x,l]; } t=[1,[2,[3]]];";
static StaticMapSlot gs[6]; static NV ref[NJ_MAXOUT]; static int refn;
static void gc_boot(char *s) { sym_bytes(s, 2, "s"); s[2] = 0; for (int i = 0; i < 2; i++) sym_assume((unsigned char)s[i] < 128 && s[i] > 32);
  StaticMapSlot in[] = { NJ_INT("A", sym_i64("a")), NJ_INT("B", sym_i64("b")), NJ_STR("S", s, 2), NJ_END }; memcpy(gs, in, sizeof in); nsym_mkfile("gcmod.noja", GCMOD, sizeof GCMOD - 1); nsym_mkfile("gcmid.noja", GCMID, sizeof GCMID - 1); }
static void gc_once(const char *p, long long k0, long long k1, int every, int heap) {
  RuntimeConfig c = Runtime_GetDefaultConfigs(); c.heap = heap; c.callback = (RuntimeCallback) { .func = gc_cb }; gc_on = false; gc_n = 0; if (!nj_boot_cfg(c, gs)) sym_check(0, "boot"); gc_k[0] = k0; gc_k[1] = k1; gc_every = every; gc_on = true; bool ok = nj_run(p); gc_on = false; sym_check(ok, "the program doesn't fail"); nj_end(); }
static bool nv_same(NV *a, NV *b) { if (a->tag != b->tag) return false; if (a->tag == V_INT || a->tag == V_BOOL) return a->i == b->i; if (a->tag == V_FLOAT) return nj_sameflt(a->f, b->f); if (a->tag == V_STR) return a->n == b->n && memcmp(a->s, b->s, a->n < 95 ? a->n : 95) == 0; return a->n == b->n; }
void t_gc_points(void) {
  int p = (int)sym_param("prog", 0), two = (int)sym_param("two", 0); static char s[3]; gc_boot(s);
  gc_once(GP[p], 0, 0, 0, 1 << 20); long long n = gc_n; refn = nj_nout; memcpy(ref, nj_out, sizeof(NV) * refn); sym_check(refn > 0, "output");
  int every = 0; long long k0, k1 = 0; k0 = sym_choose("k", (int)n + 2); if (k0 > n) { every = 1 + sym_choose("every", 3); k0 = 0; } else if (two && k0 > 0 && k0 < n) k1 = k0 + 1 + sym_choose("k2", (int)(n - k0));
  gc_once(GP[p], k0, k1, every, 1 << 20); sym_check(nj_nout == refn && gc_n == n, "a collection doesn't change what runs");
  for (int i = 0; i < refn; i++) sym_check(nv_same(&ref[i], &nj_out[i]), "a collection doesn't change any value"); sym_cover("same"); nj_logout();
}
// With a small heap the interpreter itself decides when to collect: same output, or an out of memory error.
void t_gc_small(void) {
  int p = (int)sym_param("prog", 0); static char s[3]; gc_boot(s); static const int HS[] = {1, 1000, 5000, 9000, 12000, 14000, 16000, 20000, 24000}; int h = HS[sym_choose("heap", 9)];
  gc_once(GP[p], 0, 0, 0, 1 << 20); refn = nj_nout; memcpy(ref, nj_out, sizeof(NV) * refn);
  RuntimeConfig c = Runtime_GetDefaultConfigs(); c.heap = h; bool b = nj_boot_cfg(c, gs); bool ok = b && nj_run(GP[p]);
  if (ok) { sym_check(nj_nout == refn, "a small heap doesn't change what runs"); sym_cover("ran"); } else { sym_check(nj_err.occurred, "running out of heap is an error"); sym_check(nj_nout <= refn, "nothing else runs"); sym_cover("out of heap"); }
  for (int i = 0; i < nj_nout && i < refn; i++) sym_check(nv_same(&ref[i], &nj_out[i]), "a small heap doesn't change any value"); nj_logout(); nj_end();
}
// ---------------------------------------------------------------- object graphs at the level of the heap
typedef struct { Object base; long long id, pay; Object *ref[2]; int ext; unsigned char *bytes; } Node;
static int destroyed[8], dfails;
static bool node_free(Object *o, Error *e) { Node *n = (Node*) o; sym_check(n->id >= 0 && n->id < 8, "the destructor gets an intact object"); destroyed[n->id]++; if (dfails >> n->id & 1) Error_Report(e, ErrorType_RUNTIME, "Can't destroy"); return true; }
static void node_walk(Object *o, void (*cb)(Object**, void*), void *u) { Node *n = (Node*) o; cb(&n->ref[0], u); cb(&n->ref[1], u); }
static void node_ext(Object *o, void (*cb)(void**, unsigned, void*), void *u) { Node *n = (Node*) o; cb((void**) &n->bytes, n->ext, u); }
static TypeObject t_node = { .base = { .type = &t_type, .flags = Object_STATIC }, .name = "node", .size = sizeof(Node), .free = node_free, .walk = node_walk, .walkexts = node_ext };
static TypeObject t_plain = { .base = { .type = &t_type, .flags = Object_STATIC }, .name = "plain", .size = sizeof(Node), .walk = node_walk, .walkexts = node_ext };
static TypeObject t_static_node = { .base = { .type = &t_type, .flags = Object_STATIC }, .name = "static" };
#define GN 3
static bool reach[GN]; static int gr[GN][2];
static void mark(int i) { if (i < 0 || i >= GN || reach[i]) return; reach[i] = true; mark(gr[i][0]); mark(gr[i][1]); }
static void same_graph(Node **root, int *ri, int nr, long long *pay, Node **loc) {
  for (int i = 0; i < GN; i++) loc[i] = 0; Node *todo[16]; int at[16], nt = 0; for (int i = 0; i < nr; i++) if (ri[i] < GN) { todo[nt] = root[i]; at[nt++] = ri[i]; } else sym_check(ri[i] == GN ? root[i] == 0 : (void*) root[i] == &t_static_node, "empty and static references are unchanged");
  while (nt) { Node *n = todo[--nt]; int i = at[nt]; sym_check(n != 0, "reference"); if (loc[i]) { sym_check(loc[i] == n, "an object that's referenced twice stays one object"); continue; } loc[i] = n;
    sym_check(n->id == i && n->pay == pay[i] && !(n->base.flags & Object_MOVED), "fields survive"); for (int z = 0; z < n->ext; z++) sym_check(n->bytes[z] == (unsigned char)(pay[i] >> z), "extensions survive");
    for (int r = 0; r < 2; r++) { int t = gr[i][r]; if (t < GN) { if (nt < 15) { todo[nt] = (Node*) n->ref[r]; at[nt++] = t; } } else sym_check(t == GN ? n->ref[r] == 0 : (void*) n->ref[r] == &t_static_node, "empty and static references are unchanged"); } }
  for (int i = 0; i < GN; i++) for (int j = 0; j < i; j++) sym_check(!loc[i] || loc[i] != loc[j], "different objects stay different");
}
// All graphs of three objects, all root sets, heaps of all relevant sizes: two collections.
void t_heap_graph(void) {
  static const int HS[] = {0, 100, 200, 260, 400, 4096}; int h = (int)sym_param("heap", 5); Heap *heap = Heap_New(HS[h]); Error err; Error_Init(&err); sym_check(heap != 0, "heap"); if (!heap) sym_end(); memset(destroyed, 0, sizeof destroyed); dfails = 0; memset(reach, 0, sizeof reach);
  Node *n[GN]; long long pay[GN]; int des = (int)sym_param("destr", 5);
  for (int i = 0; i < GN; i++) { pay[i] = sym_i64("pay"); n[i] = Heap_Malloc(heap, des >> i & 1 ? &t_node : &t_plain, &err); sym_check(n[i] != 0, "allocation beyond the pool succeeds"); if (!n[i]) sym_end(); n[i]->id = i; n[i]->pay = pay[i]; n[i]->ext = 3 + 2 * i; n[i]->bytes = Heap_RawMalloc(heap, n[i]->ext, &err); sym_check(n[i]->bytes != 0, "extension"); for (int z = 0; z < n[i]->ext; z++) n[i]->bytes[z] = (unsigned char)(pay[i] >> z); }
  sym_check((int)Heap_GetObjectCount(heap) == GN, "every object is counted"); int full = (int)sym_param("full", 1); // node 0 and the roots may also refer to nothing and to static objects
  for (int i = 0; i < GN; i++) for (int r = 0; r < 2; r++) { int t = gr[i][r] = full && (r == 0 || i == 0) ? sym_choose("ref", i == 0 ? GN + 2 : GN + 1) : (i + 1 + r) % GN; n[i]->ref[r] = t < GN ? (Object*) n[t] : t == GN ? 0 : (Object*) &t_static_node; }
  Node *root[2]; int ri[2]; for (int i = 0; i < 2; i++) { ri[i] = i == 0 ? sym_choose("root", GN + 2) : sym_choose("root", 2) ? GN : 0; root[i] = ri[i] < GN ? n[ri[i]] : ri[i] == GN ? 0 : (Node*) &t_static_node; mark(ri[i]); }
  Node *loc[GN]; bool failed = false; if (sym_param("fail", 0)) dfails = 1 << sym_choose("fail", GN);
  for (int round = 0; round < 2 && !failed; round++) {
    bool s = Heap_StartCollection(heap, &err); sym_check(s, "start"); if (!s) sym_end(); for (int i = 0; i < 2; i++) Heap_CollectReference((Object**) &root[i], heap); bool ok = Heap_StopCollection(heap);
    bool dead_fails = false; for (int i = 0; i < GN; i++) if (!reach[i] && (des >> i & 1) && (dfails >> i & 1) && round == 0) dead_fails = true;
    if (!ok && !dead_fails) { sym_check(HS[h] < 400 && err.occurred, "a collection only fails when the live objects don't fit in the heap"); failed = true; for (int i = 0; i < GN; i++) sym_check(destroyed[i] == 0, "a failed collection destroys nothing"); sym_cover("failed"); }
    else { sym_check(ok == !dead_fails && err.occurred == dead_fails, "a failing destructor is reported"); if (err.occurred) { Error_Free(&err); Error_Init(&err); } for (int i = 0; i < GN; i++) sym_check(destroyed[i] == ((des >> i & 1) && !reach[i]), "exactly the unreachable objects are destroyed, once"); int live = 0, bytes = 0; for (int i = 0; i < GN; i++) if (reach[i]) { live++; bytes += sizeof(Node) + 3 + 2 * i; } sym_check((int)Heap_GetObjectCount(heap) == live, "only the reachable objects are kept"); if (HS[h] >= 400) sym_check(Heap_GetUsagePercentage(heap) * HS[h] / 100 >= bytes - 1 && Heap_GetUsagePercentage(heap) * HS[h] / 100 <= bytes + 7 * 2 * live + 1, "the space of the others is reclaimed"); sym_cover("collected"); }
    if (!failed) same_graph(root, ri, 2, pay, loc); }
  if (!failed) { Node *x = Heap_Malloc(heap, &t_node, &err); sym_check(x != 0, "allocating after a collection"); if (x) { x->id = 7; x->ext = 0; x->bytes = 0; x->ref[0] = x->ref[1] = 0; } same_graph(root, ri, 2, pay, loc); }
  Heap_Free(heap); for (int i = 0; i < GN; i++) sym_check(destroyed[i] == (des >> i & 1), "every object is destroyed exactly once"); sym_check(destroyed[7] == !failed, "the last object is destroyed"); Error_Free(&err); sym_out(failed);
}
// Many objects with destructors: the table of pending destructors grows and shrinks.
static int many[64]; static bool many_free(Object *o, Error *e) { (void)e; many[((Node*) o)->id]++; return true; }
static TypeObject t_many = { .base = { .type = &t_type, .flags = Object_STATIC }, .name = "many", .size = sizeof(Node), .free = many_free, .walk = node_walk };
void t_heap_destructors(void) {
  int n = 1 + sym_choose("n", 40), keep = sym_choose("keep", 6), h = sym_choose("heap", 2); Heap *heap = Heap_New(h ? 8192 : 200); Error err; Error_Init(&err); memset(many, 0, sizeof many); Node *root = 0; long long v = sym_i64("v"); static bool kept[64]; int kc = 0;
  for (int i = 0; i < n; i++) { Node *x = Heap_Malloc(heap, &t_many, &err); if (!x) { sym_check(0, "allocation"); sym_end(); } x->id = i; x->pay = v ^ i; x->ref[1] = 0; x->ref[0] = 0; kept[i] = keep == 0 ? false : keep == 1 ? true : keep == 2 ? i % 2 : keep == 3 ? i < 3 : keep == 4 ? i >= n - 2 : i % 7 == 3; if (kept[i]) { x->ref[0] = (Object*) root; root = x; kc++; } }
  for (int z = 0; z < 2; z++) { bool s = Heap_StartCollection(heap, &err); sym_check(s, "start"); Heap_CollectReference((Object**) &root, heap); bool ok = Heap_StopCollection(heap); if (!ok) { sym_check(!h && err.occurred && kc * (int)sizeof(Node) > 200, "a collection only fails when the live objects don't fit"); for (int i = 0; i < n; i++) sym_check(many[i] == 0, "a failed collection destroys nothing"); sym_cover("failed"); break; }
    for (int i = 0; i < n; i++) sym_check(many[i] == !kept[i], "exactly the unreachable objects are destroyed, once"); sym_check((int)Heap_GetObjectCount(heap) == kc, "count"); sym_cover("collected"); }
  int c = 0; for (Node *x = root; x; x = (Node*) x->ref[0]) { sym_check(x->pay == (v ^ x->id) && kept[x->id], "live objects are intact"); c++; } sym_check(c == kc, "live objects"); Heap_Free(heap); for (int i = 0; i < n; i++) sym_check(many[i] == 1, "every object is destroyed exactly once"); Error_Free(&err); sym_out(kc);
}
// ---------------------------------------------------------------- allocation
void t_heap_alloc(void) {
  static const int HS[] = {0, 1, 8, 15, 16, 24, 40, 64, 100, -1}; static const int SZ[] = {0, 1, 7, 8, 9, 16, 17, 40}; int n = (int)sym_param("n", 4); Heap *heap = Heap_New(HS[sym_choose("heap", 10)]); Error err; Error_Init(&err); if (!heap) sym_end(); unsigned char *p[6]; int z[6], tot = 0; unsigned char fill = sym_u8("fill");
  for (int i = 0; i < n; i++) { z[i] = SZ[sym_choose("size", 8)]; p[i] = Heap_RawMalloc(heap, z[i], &err); sym_check(p[i] != 0 && !err.occurred, "allocation beyond the pool succeeds"); if (!p[i]) sym_end(); sym_check(((uintptr_t) p[i] & 7) == 0, "allocations are aligned"); for (int b = 0; b < z[i]; b++) p[i][b] = (unsigned char)(fill + i * 50 + b); tot += z[i]; }
  for (int i = 0; i < n; i++) for (int b = 0; b < z[i]; b++) sym_check(p[i][b] == (unsigned char)(fill + i * 50 + b), "allocations don't overlap");
  sym_check(Heap_GetObjectCount(heap) == 0, "raw allocations are no objects"); float u = Heap_GetUsagePercentage(heap); int hs = (int)Heap_GetSize(heap); if (hs > 0) { float b = u * hs / 100; sym_check(b >= tot - 1 && b <= tot + 7 * n + 1, "usage counts every allocated byte"); sym_check(tot <= hs || u > 100, "a heap that gave out more than its size is over-full"); } sym_cover("alloc"); Heap_Free(heap); sym_out(tot);
}
void t_heap_huge(void) { // sizes that can't be allocated
  Heap *heap = Heap_New(64); Error err; Error_Init(&err); int a = 1 + sym_choose("a", 3); for (int i = 0; i < a; i++) Heap_RawMalloc(heap, 20, &err); int z = 0x40000001 + (int)sym_range("z", 0, 200) * 5000000; void *p = Heap_RawMalloc(heap, z, &err); sym_check(!p && err.occurred, "impossible sizes are an error"); Error_Free(&err); Error_Init(&err); unsigned char *q = Heap_RawMalloc(heap, 24, &err); sym_check(q != 0, "the heap still works"); if (q) memset(q, 1, 24); sym_cover("huge"); Heap_Free(heap); }
void t_heap_total(void) { // what was allocated counts, however much it is (the large blocks are only promised)
  static const int Z[] = {1 << 25, 1 << 29, 1 << 30, 2147483647, 2147483640}; int hs = 1 << (6 + 4 * sym_choose("heap", 5)), n = 1 + sym_choose("n", 4); Heap *h = Heap_New(hs); Error e; Error_Init(&e); double sum = 0; nsym_alloc_lie = 1;
  for (int i = 0; i < n; i++) { int pre = sym_choose("pre", 3), z = Z[sym_choose("size", 5)]; if (pre) { void *q = Heap_RawMalloc(h, pre == 1 ? 5 : 24, &e); sym_check(q != 0, "allocated"); sum += pre == 1 ? 5 : 24; } void *p = Heap_RawMalloc(h, z, &e); sym_check(p && !e.occurred && ((uintptr_t)p & 7) == 0, "allocated, aligned"); sum += z; double u = (double)Heap_GetUsagePercentage(h) * hs / 100; sym_check(u > sum * 0.999999 - 64 && u < sum * 1.000001 + 64, "what was allocated is counted"); }
  nsym_alloc_lie = 0; sym_cover("counted"); Heap_Free(h); }
// ---------------------------------------------------------------- larger sizes
static const char *const BG[] = {
  /* 0 list of small objects, grown again after a collection */ "l=[]; i=0; while i<N: { l[i]=[V+i,{a:i}]; i=i+1; if i==N/2: gc(); } gc(); i=0; while i<N: { l[N+i]=V-i; i=i+1; } gc(); i=0; while i<N: { if l[i][0]!=V+i or l[i][1].a!=i or l[N+i]!=V-i: out(i); i=i+1; } out(count(l));",
  /* 1 maps with integer and text keys */ "m={}; i=0; while i<N: { m[i*3]=[V+i]; m[string.cat('k',toString(i))]=i; i=i+1; if i==N/2: gc(); } gc(); i=0; while i<N: { m[-1-i]=i; i=i+1; } gc(); i=0; while i<N: { if m[i*3][0]!=V+i or m[string.cat('k',toString(i))]!=i or m[-1-i]!=i: out(i); i=i+1; } out(count(m)); if m[1]!=none: out(0);",
  /* 2 deep nesting */ "l=[V]; i=0; while i<N: { if i%2==0: l=[i,l]; else l={n:l}; i=i+1; if i==N/2: gc(); } gc(); while i>0: { i=i-1; if i%2==0: { if l[0]!=i: out(i); l=l[1]; } else l=l.n; if i==N/2: gc(); } out(l[0]-V);",
  /* 3 texts */ "l=[]; s=''; i=0; while i<N: { s=string.cat(s,T); l[i]=s; i=i+1; if i==N/2: gc(); } gc(); i=0; while i<N: { if count(l[i])!=2*(i+1) or l[i][2*i]!=T[0] or l[i][2*i+1]!=T[1]: out(i); i=i+1; } out(count(s));",
  /* 4 closures */ "l=[]; fun mk(i,v) { w=[v]; fun get() { w[1]=i; return w; } return get; } i=0; while i<N: { l[i]=mk(i,V+i); i=i+1; if i==N/2: gc(); } gc(); i=0; while i<N: { f=l[i]; r=f(); if r[0]!=V+i or r[1]!=i: out(i); i=i+1; } out(count(l));",
  /* 5 buffers and slices of slices */ "b=buffer.new(N+2); s=b; l=[]; i=0; while i<N: { s=buffer.sliceUp(s,1,N+1-i); l[i]=s; s[0]=i%251; i=i+1; if i==N/2: gc(); } b=none; gc(); i=0; while i<N: { if l[i][0]!=i%251 or count(l[i])!=N+1-i: out(i); i=i+1; } l[0][N]=77; out(l[N-1][1]);",
  /* 6 garbage in between */ "k=[V]; i=0; while i<N: { t=[i,[i,{x:i,y:string.cat('ab',toString(i))}]]; u=t[1]; t=buffer.new(i); j=[k,u[1]]; if i%50==0: gc(); k=[V+i]; i=i+1; } gc(); if j[1].x!=N-1 or j[1].y!=string.cat('ab',toString(N-1)): out(0); out(k[0]-V);",
  /* 7 overwriting */ "m={}; l=[]; i=0; while i<N: { m[i%7]=[i,V]; l[i%5]={v:i}; m[i%7][0]=i+1; i=i+1; if i==N/2: gc(); } gc(); s=0; i=0; while i<count(m): { s=s+m[i][0]; if m[i][1]!=V: out(i); i=i+1; } i=0; while i<count(l): { s=s+l[i].v; i=i+1; } out(s);",
  /* 8 many variables' values */ "fun f(n) { a=[n]; b={c:a}; d=[a,b,T]; if n>0: { r=f(n-1); if n==3: gc(); if a[0]!=n or b.c[0]!=n or d[1].c[0]!=n or d[2]!=T: out(n); return r; } gc(); return d; } i=0; while i<N: { r=f(12); i=i+12; } gc(); out(count(r)); if r[0][0]!=0: out(1);",
};
static StaticMapSlot bgs[6]; static int bg_sizes[] = {1, 7, 8, 9, 16, 17, 31, 64, 100, 129};
void t_big_gc(void) {
  int p = (int)sym_param("prog", 0), n = bg_sizes[sym_choose("n", 10)], small = sym_choose("small", 4); static char t[3]; sym_bytes(t, 2, "t"); for (int i = 0; i < 2; i++) sym_assume((unsigned char)t[i] < 128 && t[i] > 32); long long v = sym_i64("v"); sym_assume(v > -(1LL << 40) && v < (1LL << 40)); StaticMapSlot in[] = { NJ_INT("N", n), NJ_INT("V", v), NJ_STR("T", t, 2), NJ_FUN("gc", nj_bin_gc, 0), NJ_END }; memcpy(bgs, in, sizeof in);
  RuntimeConfig c = Runtime_GetDefaultConfigs(); c.heap = small == 0 ? 1 << 20 : small == 1 ? 150000 : small == 2 ? 40000 : 20000; bool b = nj_boot_cfg(c, bgs), ok = b && nj_run(BG[p]); long long want = 0; switch (p) { case 0: want = 2 * n; break; case 1: want = 3 * n; break; case 2: want = 0; break; case 3: want = 2 * n; break; case 4: want = n; break; case 6: want = n - 1; break; case 7: { int k = 0; for (int i = n > 7 ? n - 7 : 0; i < n; i++) k += i + 1; for (int i = n > 5 ? n - 5 : 0; i < n; i++) k += i; want = k; break; } case 8: want = 3; }
  if (p == 5) want = 77; if (!ok && small) { sym_check(nj_err.occurred && nj_nout == 0, "running out of heap is an error"); sym_cover("out of heap"); nj_end(); return; } sym_check(ok, "a big enough heap is enough"); sym_check(nj_nout == 1 && nj_isint(0, want), "every live object keeps its value, whatever was collected"); sym_cover("same"); nj_logout(); nj_end();
}
// C17/C18 at larger sizes
static int bmany[300]; static bool bmany_free(Object *o, Error *e) { (void)e; bmany[((Node*) o)->id]++; return true; }
static TypeObject t_bmany = { .base = { .type = &t_type, .flags = Object_STATIC }, .name = "many", .size = sizeof(Node), .free = bmany_free, .walk = node_walk };
void t_big_destr(void) {
  static const int N[] = {41, 63, 64, 65, 100, 127, 128, 129, 200, 256, 257, 300}; int n = N[sym_choose("n", 12)], keep = sym_choose("keep", 6), h = sym_choose("heap", 2); Heap *heap = Heap_New(h ? 65536 : 3000); Error err; Error_Init(&err); memset(bmany, 0, sizeof bmany); Node *root = 0; long long v = sym_i64("v"); static bool kept[300]; int kc = 0;
  for (int i = 0; i < n; i++) { Node *x = Heap_Malloc(heap, &t_bmany, &err); if (!x) { sym_check(0, "allocation"); sym_end(); } x->id = i; x->pay = v ^ i; x->ref[1] = 0; x->ref[0] = 0; kept[i] = keep == 0 ? false : keep == 1 ? true : keep == 2 ? i % 2 : keep == 3 ? i < 3 : keep == 4 ? i >= n - 2 : i % 7 == 3; if (kept[i]) { x->ref[0] = (Object*) root; root = x; kc++; } }
  for (int z = 0; z < 2; z++) { bool s = Heap_StartCollection(heap, &err); sym_check(s, "start"); Heap_CollectReference((Object**) &root, heap); bool ok = Heap_StopCollection(heap); if (!ok) { sym_check(!h && err.occurred && kc * (int)sizeof(Node) > 3000, "a collection only fails when the live objects don't fit"); for (int i = 0; i < n; i++) sym_check(bmany[i] == 0, "a failed collection destroys nothing"); sym_cover("failed"); break; }
    for (int i = 0; i < n; i++) sym_check(bmany[i] == !kept[i], "exactly the unreachable objects are destroyed, once"); sym_check((int)Heap_GetObjectCount(heap) == kc, "count"); sym_cover("collected"); }
  int c = 0; for (Node *x = root; x; x = (Node*) x->ref[0]) { sym_check(x->pay == (v ^ x->id) && kept[x->id], "live objects are intact"); c++; } sym_check(c == kc, "live objects"); Heap_Free(heap); for (int i = 0; i < n; i++) sym_check(bmany[i] == 1, "every object is destroyed exactly once"); Error_Free(&err); sym_out(kc);
}
void t_big_alloc(void) {
  static const int HS[] = {0, 64, 1000, 1024, 4096, 5000, 100000}; static const int SZ[] = {1, 63, 64, 65, 255, 256, 1000, 1024, 4095, 4096, 5000, 70000}; int hs = HS[sym_choose("heap", 7)], n = 1 + 3 * sym_choose("n", 8), s0 = sym_choose("size", 12), step = sym_choose("step", 3); Heap *heap = Heap_New(hs); Error err; Error_Init(&err); if (!heap) sym_end(); unsigned char *p[24]; int z[24], tot = 0; unsigned char fill = sym_u8("fill");
  for (int i = 0; i < n; i++) { z[i] = SZ[(s0 + i * step) % 12]; p[i] = Heap_RawMalloc(heap, z[i], &err); sym_check(p[i] != 0 && !err.occurred, "allocation beyond the pool succeeds"); if (!p[i]) sym_end(); sym_check(((uintptr_t) p[i] & 7) == 0, "allocations are aligned"); p[i][0] = (unsigned char)(fill + i); p[i][z[i] - 1] = (unsigned char)(fill + i); p[i][z[i] / 2] = (unsigned char)(fill + i); tot += z[i]; }
  for (int i = 0; i < n; i++) { sym_check(p[i][0] == (unsigned char)(fill + i) && p[i][z[i] - 1] == (unsigned char)(fill + i) && p[i][z[i] / 2] == (unsigned char)(fill + i), "allocations keep their contents"); for (int j = 0; j < i; j++) sym_check((uintptr_t) p[i] + z[i] <= (uintptr_t) p[j] || (uintptr_t) p[j] + z[j] <= (uintptr_t) p[i], "allocations don't overlap"); }
  float u = Heap_GetUsagePercentage(heap); int r = (int)Heap_GetSize(heap); if (r > 0) { double b = (double)u * r / 100; sym_check(b >= tot * 0.999 - 1 && b <= tot * 1.001 + 7 * n + 1, "usage counts every allocated byte"); } sym_cover("alloc"); Heap_Free(heap); sym_out(tot);
}
// ---------------------------------------------------------------- C39 memory in use
static const char *const MG[] = { // bodies that leave nothing behind
  /* 0 */ "t=[i,[i,{x:i,y:string.cat('ab',toString(i))}]]; t[2]=t; t=none;",
  /* 1 */ "m={}; m[1]=m; m.l=[m,m]; k=0; while k<9: { m[k]=[k]; k=k+1; } m=none; k=none;",
  /* 2 */ "fun mk(v) { fun get() return v; fun set(x) { v=x; return get; } return get,set; } a,b=mk([i]); b(a); a=b; b=none; a=none;",
  /* 3 */ "b=buffer.new(20); c=buffer.sliceUp(b,2,5); d=buffer.sliceUp(c,1,1); s=buffer.toString(b); u=buffer.fromString('abc'); b=c=d=s=u=none;",
  /* 4 */ "T=int|String; U=?[T]; r=istypeof(U,[1,'a']); T=U=r=none; fun p(x:int=i) return x; p(); p(2); p=none;",
  /* 5 */ "it=makeIterator([1,'b',{c:2}]); it->next(); it->next(); it->next(); it->next(); it=none; ks=keysof({a:1,b:[2]}); ks=none;",
  /* 6 */ "f=import('gcmod.noja'); f.get(1); g=f.n; g(); f=g=none;",
  /* 7 */ "f=files.openFile('mfile.txt',files.WRITE); files.write(f,buffer.fromString('abc'),3); f=none; d=files.openDir('.'); files.nextDirItem(d); d=none;",
  /* 8 */ "fun rec(n) { l=[n]; if n>0: return rec(n-1); return l; } r=rec(6); r=none; fun even(n) if n==0: return true; else return odd(n-1); fun odd(n) if n==0: return false; else return even(n-1); even(7); even=odd=rec=none;",
  /* 9 */ "x=1.5*i; y=x+2; z=toString(y); w=math.sqrt(2.5); q=string.slice(z,0,1); x=y=z=w=q=none;",
  /* 10 */ "fun many() return 1,[2],'c',4.5; a,b,c=many(); many(); x=many(); a=b=c=x=none; many=none; do { k=[1]; break; } while true; while true: { k=none; break; }",
  /* 11 */ "e,m=files.openFile('no/such/file',files.READ); n,s=buffer.toString(buffer.new(2)); e=m=n=s=none; l=[1,2,3]; append(l,l); l=none;",
};
enum { NMG = sizeof MG / sizeof *MG };
static long long ms_n[64], ms_u[64], ms_l[64]; static int ms_k;
static int mem_mark(Runtime *r, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *e) { (void)argv; (void)argc; (void)rets; if (!Runtime_CollectGarbage(r, e)) return -1; Heap *h = Runtime_GetHeap(r); if (ms_k < 64) { ms_n[ms_k] = Heap_GetObjectCount(h); ms_u[ms_k] = (long long)(Heap_GetUsagePercentage(h) * (float)Heap_GetSize(h) / 100); ms_l[ms_k++] = (long long)sym_live(); } return 0; }
static int mem_top; static long long mem_lv, mem_n; static bool mem_cb(Runtime *r, void *d) { (void)d; if (mem_n++ % 32 == 0) { long long l = (long long)sym_live(); if (l > mem_lv) mem_lv = l; } Heap *h = Runtime_GetHeap(r); int u = (int)(Heap_GetUsagePercentage(h) * (float)Heap_GetSize(h) / 100); if (u > mem_top) mem_top = u; return true; }
static StaticMapSlot mgs[4];
void t_mem_steady(void) { // after a collection, a repeated piece of work leaves exactly what it left the first time
  int p = (int)sym_param("prog", 0), n = 3 + sym_choose("n", 6), where = sym_choose("where", 3), p2 = sym_choose("then", NMG); nsym_mkfile("gcmod.noja", GCMOD, sizeof GCMOD - 1); StaticMapSlot in[] = { NJ_FUN("mark", mem_mark, 0), NJ_INT("N", n), NJ_END }; memcpy(mgs, in, sizeof in); ms_k = 0; RuntimeConfig c = Runtime_GetDefaultConfigs(); c.heap = 1 << 20; sb0();
  if (where == 0) { sb("i=0; while i<N: { "); sb(MG[p]); sb(MG[p2]); sb(" i=i+1; mark(); }"); } else if (where == 1) { sb("fun body(i) { "); sb(MG[p]); sb("} fun other(i) {"); sb(MG[p2]); sb("} i=0; while i<N: { body(i); other(i); i=i+1; mark(); }"); } else { sb("fun body(i) { "); sb(MG[p]); sb(MG[p2]); sb(" mark(); return i; } i=0; while i<N: i=body(i)+1; out(i);"); }
  if (!nj_boot_cfg(c, mgs)) return; bool ok = sb_run(); sym_check(ok, "the program runs"); sym_check(ms_k == n, "every round is marked"); if (nj_err.message) sym_dbg(nj_err.message, 0);
  for (int i = 2; i < ms_k; i++) { sym_check(ms_n[i] == ms_n[1], "every round leaves the same number of objects"); sym_check(ms_u[i] >= ms_u[1] - 64 && ms_u[i] <= ms_u[1] + 64, "in the same space"); sym_check(ms_l[i] == ms_l[1], "and as many blocks of memory"); } sym_cover("steady"); sym_out(ms_k); nj_end(); }
void t_mem_bound(void) { // with garbage only, the heap in use stays near its configured size, however long the program runs
  int p = (int)sym_param("prog", 0), n = 10 + 15 * sym_choose("n", 5), hs = sym_choose("heap", 3), where = sym_choose("where", 2); static const int HS[] = {25000, 40000, 100000}; nsym_mkfile("gcmod.noja", GCMOD, sizeof GCMOD - 1); StaticMapSlot in[] = { NJ_FUN("mark", mem_mark, 0), NJ_INT("N", n), NJ_END }; memcpy(mgs, in, sizeof in); ms_k = 0; RuntimeConfig c = Runtime_GetDefaultConfigs(); c.heap = HS[hs]; c.callback = (RuntimeCallback) { .func = mem_cb }; sb0(); mem_top = 0; mem_n = 0; mem_lv = 0;
  if (where == 0) { sb("i=0; while i<N: { "); sb(MG[p]); sb(" i=i+1; if i%10==0: mark(); } out(i);"); } else { sb("fun body(i) { "); sb(MG[p]); sb(" } i=0; while i<N: { body(i); i=i+1; if i%10==0: mark(); } out(i);"); }
  bool ok = nj_boot_cfg(c, mgs); long long b0 = (long long)sym_live(); mem_n = 0; mem_lv = b0; ok = ok && sb_run(); sym_dbg("blocks", (uint64_t)(mem_lv - b0)); sym_check(mem_lv <= b0 + 64, "nor takes more and more blocks of memory"); for (int i = 2; i < ms_k; i++) sym_check(ms_l[i] == ms_l[1], "nor keeps any after a collection"); sym_check(ok && nj_nout == 1 && nj_isint(0, n), "a program whose live values fit in the heap runs to its end"); sym_check(mem_top <= HS[hs] + 4096, "and never uses much more than the configured heap"); sym_cover("bounded"); nj_end(); }
static const char *const RG[] = { // ways of ending
  "1/0;", "error('x');", "nope;", "l=[1,{a:2}]; fun f(x) { y=[x]; return g(y,x); } fun g(a,b) { return a[0]+none; } f(l);", "x = ;", "fun f( { }", "break;", "import('missing.noja');", "import('badmod.noja');", "import('failmod.noja');", "f=files.openFile('mfile.txt',files.WRITE); d=files.openDir('.'); files.write(f,buffer.fromString('abc'),3); 1/0;", "fun f(n:int) { if n==0: return 'a'+1; return f(n-1); } f(9);", "fun f(n) return f(n+1); f(0);", "it=makeIterator([1,2]); it->next(); it.nope(1);", "assert(true,false);", "'\\q';", "x='abc", "l=[]; l[3]=1;", "b=buffer.new(4); c=buffer.sliceUp(b,1,2); c[9]=1;", "fun f(a 1;", "m={a:1,a:2}; m[none]=m; m.a.b.c=1;", "while 1: 2;", "", "x=getCurrentScriptDirectory(); x=toString([1,[2]]); print(x); y=none.a; y();",
};
enum { NRG = sizeof RG / sizeof *RG };
static long long mr_k, mr_n; static bool mr_cb(Runtime *r, void *d) { (void)r; (void)d; return ++mr_n != mr_k; }
void t_mem_release(void) { // a runtime gives back every block it took, however its program ended
  int w = (int)sym_param("what", 0), p = sym_choose("prog", w == 0 ? NRG : NMG), timed = sym_choose("timed", 2), k = w == 2 ? sym_choose("k", 80) : 0, times = 1 + (w == 0 ? sym_choose("times", 2) : 0); nsym_mkfile("gcmod.noja", GCMOD, sizeof GCMOD - 1); nsym_mkfile("badmod.noja", "x=(;", 4); nsym_mkfile("failmod.noja", "x=[1]; y=x+1;", 13); StaticMapSlot in[] = { NJ_INT("i", 3), NJ_END }; memcpy(mgs, in, sizeof in); long long b[3];
  for (int round = 0; round < 3; round++) { RuntimeConfig c = Runtime_GetDefaultConfigs(); c.heap = 1 << 18; c.time = timed; if (w == 2) c.callback = (RuntimeCallback) { .func = mr_cb }; mr_k = 0; mr_n = 0; if (!nj_boot_cfg(c, mgs)) sym_check(0, "boot"); mr_n = 0; mr_k = k * 7 + 1; for (int t = 0; t < times; t++) { Error_Free(&nj_err); Error_Init(&nj_err); bool ok = nj_run(w == 0 ? RG[p] : MG[p]); if (w != 2) sym_check(ok == (w == 1 || !RG[p][0]), "the program ends as expected"); } nj_end(); b[round] = (long long)sym_live(); }
  sym_check(b[1] == b[0] && b[2] == b[0], "every block of memory and every open file is given back"); sym_cover("released"); sym_out(p); }
extern char *diagramStringAST(const char *str, Error *error, int *error_offset); extern char *diagramFileAST(const char *file, Error *error, int *error_offset);
void t_mem_forms(void) { // every way of running or drawing a program, right or wrong, with short and long messages
  static const char *const A[] = { "x=[1,{a:#}];", "#;", "# #;", "error('#');", "x = '#", "x = '\\#';", "fun #(#, b:int=2) { return #(1); } #(2); 1/0;", "@" }, *const B[] = { "EXIT;", "PUSHVAR \"#\"; EXIT;", "JUMP #; EXIT;", "# 1; EXIT;", "PUSHSTR \"#", "#: #: EXIT;", "PUSHINT 1; PUSHINT 0; DIV; EXIT;", "EXIT 1, \"#\";" }; static const int L[] = { 1, 100, 253, 300, 1000 };
  int form = sym_choose("form", 6), k = sym_choose("program", 8), l = L[sym_choose("length", 5)], missing = sym_choose("missing", 2), twice = sym_choose("twice", 2); bool byte = form == 2 || form == 3, file = form & 1; if (missing && !file) sym_end(); sb0(); for (const char *p = (byte ? B : A)[k]; *p; p++) if (*p == '#') for (int i = 0; i < l; i++) sbc('a' + i % 26); else sbc(*p); sbc(0); if (!missing && file) nsym_mkfile("prog.txt", nj_src, nj_sn - 1); long long b[3]; int bad = 0, oks = 0;
  for (int round = 0; round < 3; round++) { if (form < 4) { if (!nj_boot(NULL)) sym_check(0, "boot"); } for (int t = 0; t <= twice; t++) { Error e; Error_Init(&e); bool ok; int off; if (form == 0) ok = runString(nj_rt, nj_src, &e); else if (form == 1) ok = runFile(nj_rt, "prog.txt", &e); else if (form == 2) ok = runBytecodeString(nj_rt, nj_src, &e); else if (form == 3) ok = runBytecodeFile(nj_rt, "prog.txt", &e); else { char *s = form == 4 ? diagramStringAST(nj_src, &e, &off) : diagramFileAST("prog.txt", &e, &off); ok = s != NULL; free(s); } sym_check(ok == !e.occurred, "it either works or says why not"); if (ok) oks++; else bad++; if (missing) sym_check(!ok, "a missing file"); Error_Free(&e); } if (form < 4) nj_end(); b[round] = (long long)sym_live(); }
  sym_check(!oks || !bad, "each time the same"); sym_check(b[1] == b[0] && b[2] == b[0], "every block of memory and every open file is given back"); if (oks) sym_cover("works"); else sym_cover("refused"); sym_out(oks); }
// ---------------------------------------------------------------- C40 the system refuses memory
void t_oom(void) { nsym_alloc_fails = 0; // any allocation can fail, alone or with those that follow
  int w = (int)sym_param("what", 0), p = sym_choose("prog", w == 0 ? NRG : NMG), setup = (int)sym_param("setup", 0), timed = setup == 1, heap = setup != 2; nsym_mkfile("gcmod.noja", GCMOD, sizeof GCMOD - 1); nsym_mkfile("badmod.noja", "x=(;", 4); nsym_mkfile("failmod.noja", "x=[1]; y=x+1;", 13); StaticMapSlot in[] = { NJ_INT("i", 3), NJ_END }; memcpy(mgs, in, sizeof in); static char src[600]; strcpy(src, "out(1,'two',[3]);"); strcat(src, w == 0 ? RG[p] : MG[p]); if (w) strcat(src, "out(4);"); long n = 0, k = 0; int rn = 0, want = -1; static NV refo[8]; long long b0 = 0;
  for (int round = 0; round < (nsym_alloc_fails == 1 ? 3 : 4); round++) { // without, without, with, without failing
    if (round == 2) { k = 1 + (long)sym_choose("k", (int)n); nsym_alloc_fails = sym_choose("many", 2) ? 1000000 : 1; nsym_alloc_fail = k; } nsym_alloc_count = 0; nj_nout = 0; RuntimeConfig c = Runtime_GetDefaultConfigs(); c.heap = heap ? 1 << 18 : 8000; c.time = timed; bool ok = nj_boot_cfg(c, mgs), up = ok; if (ok) ok = nj_run(src); if (round == 2) nsym_alloc_fail = 0;
    if (round < 2 || round == 3) { sym_check(up, "boot"); if (round == 0) { n = nsym_alloc_count; rn = nj_nout; want = ok; for (int i = 0; i < rn && i < 8; i++) refo[i] = nj_out[i]; } else sym_check(ok == want && nj_nout == rn, "a failure leaves nothing behind"); }
    else { sym_check(!nj_rt || ok == !nj_err.occurred, "a run that doesn't fail reports no error, one that fails does"); if (nj_rt && !ok) sym_check(nj_err.message && nj_err.message[0], "with a message"); sym_check(nj_nout <= rn, "nothing more is done"); if (ok) sym_check(want == 1 && nj_nout == rn, "if it succeeds, everything was done"); for (int i = 0; i < nj_nout && i < 8; i++) sym_check(nv_same(&refo[i], &nj_out[i]), "what's done is right"); if (!ok) sym_cover("refused"); }
    if (nj_rt) { if (!nj_err.occurred && 0) Error_Free(&nj_err); nj_end(); } long long b = (long long)sym_live(); if (round == 1) b0 = b; if (round > 1) sym_check(b == b0, "every block of memory is given back"); } }
static const char *const LG[] = { // uses of the library and of the language, one kind each
  "a=string.slice('abcdef',1,3); b=string.trim('  x '); c=string.cat(a,b,'z'); d=string.chr(233); e=string.ord(d); f=string.toInt('12'); out(c,e);",
  "b=buffer.fromString('abcdef'); c=buffer.sliceUp(b,1,4); d=buffer.sliceUp(c,1,2); c[0]=65; s=buffer.toString(b); t=buffer.toString(d); out(s,t);",
  "b=buffer.new(3); b[0]=200; s,e=buffer.toString(b); out(s,count(b));", "out(toString([1,{a:2.5},'x',none]));", "s=toString(-12.25); out(s,toString(0));", "it=makeIterator([1,2]); out(it->next(),it->next(),it->next());",
  "k=keysof({a:1,b:2,3:4}); l=keysof([5,6]); out(k,l,count(k));", "x=input(); y=input(); out(x,y);", "w=getCurrentWorkingDirectory(); d=getCurrentScriptDirectory(); l=getCurrentScriptLocation(); out(d,l);",
  "f=files.openFile('gcmod.noja',files.READ); b=buffer.new(10); n=files.read(f,b,4); out(n,buffer.toString(buffer.sliceUp(b,0,4)));", "f,e=files.openFile('none.txt',files.READ); out(f,e);", "d=files.openDir('.'); while true: { i=files.nextDirItem(d); if i==none: break; } out(1);",
  "fun f(a,b:int|float=2,c:?[int]=none) return a,b,c; x,y,z=f(1); p,q,r=f(1,2.5,[3]); out(x,y,z,p,q,r);", "T={a:int,b:?String}; out(istypeof(T,{a:1,b:'x'}),istypeof(T,{a:1}),istypeof([int],[1,2]),T);", "m={a:1}; m['b']=2; m[3]=4; m[1.5]=5; m[true]=6; m[none]=7; m.c=8; m['d']=9; m['e']=10; out(count(m),m.c,m[none]);",
  "l=[]; i=0; while i<20: { l[i]=[i]; i=i+1; } append(l,5); append(l,1); out(count(l));", "fun c(n) { fun g() { n=n+1; return n; } return g; } a=c(1); b=c(5); out(a(),b(),a());", "x=math.sqrt(2.0); y=math.pow(2.0,3.0); z=math.floor(2.5); out(x,y,z);", "x,e=math.sqrt('a'); out(x);", "n=none; m={x:[1,2]}; out(m.x[1],n.y,m.z,'abc'[1]);", "print([1,'a',{b:2},buffer.new(2),int,?int,int|float,print]); out(1);", "fun p() return 1,2; a,b=p(); c=(2); d=[1,2][0]; out(a,b,c,d);", "x=random.generate(1,2); out(type(x)==int);", "assert(true); x=typename([1]); y=type(x); out(x,y);",
};
enum { NLG = sizeof LG / sizeof *LG };
void t_oom_heap(void) { // the heap's own allocations, refused wherever its main pool fills up
  nsym_alloc_fails = 0; int w = (int)sym_param("what", 0), p = sym_choose("prog", w == 0 ? NRG : w == 1 ? NMG : NLG), pads = (int)sym_param("pads", 40), step = (int)sym_param("step", 24), from = (int)sym_param("from", 0); nsym_mkfile("gcmod.noja", GCMOD, sizeof GCMOD - 1); nsym_mkfile("badmod.noja", "x=(;", 4); nsym_mkfile("failmod.noja", "x=[1]; y=x+1;", 13); StaticMapSlot in[] = { NJ_INT("i", 3), NJ_END }; memcpy(mgs, in, sizeof in); static char src[600]; strcpy(src, w == 0 ? RG[p] : w == 1 ? MG[p] : LG[p]); if (w == 1) strcat(src, "out(4);"); nsym_set_stdin("ab\nc", 4); static NV refo[8]; long n = 0; int rn = 0, want = -1; long long b0 = 0;
  for (int round = 0; round < 3; round++) { RuntimeConfig c = Runtime_GetDefaultConfigs(); c.heap = 1 << 17; bool ok = nj_boot_cfg(c, mgs); sym_check(ok, "boot"); if (round == 2) { Heap *h = Runtime_GetHeap(nj_rt); int used = (int)((double)Heap_GetUsagePercentage(h) * (1 << 17) / 100), pad = from + step * sym_choose("pad", pads), fill = (1 << 17) - used - pad; if (fill > 0) Heap_RawMalloc(h, fill & ~7, &nj_err); nsym_alloc_fail = 1 + sym_choose("k", (int)n + 6); nsym_alloc_fails = 1; }
    nsym_alloc_count = 0; nj_nout = 0; ok = nj_run(src); bool hit = nsym_alloc_fail && nsym_alloc_count >= nsym_alloc_fail; if (round < 2) { n = nsym_alloc_count; rn = nj_nout; want = ok; for (int i = 0; i < rn && i < 8; i++) refo[i] = nj_out[i]; } nsym_alloc_fail = 0; if (w == 2 && round < 2) nsym_set_stdin("ab\nc", 4);
    if (w == 2 && round < 2) sym_check(ok == !strstr(src, "sqrt('a')"), "the programs of the library run, but for the wrong one"); sym_check(ok == !nj_err.occurred, "a run reports an error exactly if it fails"); if (!ok) sym_check(nj_err.message && nj_err.message[0], "with a message"); if (!hit) sym_check(ok == want && nj_nout == rn, "a full pool changes nothing"); else if (0) ; if (w) for (int i = 0; i < nj_nout && i < 8; i++) sym_check(nv_same(&refo[i], &nj_out[i]), "what's done is right"); if (hit) { if (ok) sym_check(want == 1 && nj_nout == rn, "if it succeeds, everything was done"); sym_cover("refused"); }
    nj_end(); long long b = (long long)sym_live(); if (round == 1) b0 = b; if (round > 1) sym_check(b == b0, "every block of memory and every open file is given back"); } sym_out(n); }
extern Executable *compile(Source *src, Error *error, int *error_offset); extern Executable *assemble(Source *src, Error *error, int *error_offset);
void t_oom_compile(void) { // translating or drawing a program while memory runs out, wherever the pools' chunks end
  static const char *const A = "x = 1; y = [1, x, {a: 2, 'b': 3.5}]; if x == 1: y = 2; else y = 3; while x < 0: { x = x - 1; break; } do x = x + 1; while not true; fun f(a, b: int = 2, c: ?[int] | float) { return a, b; } p, q = f(1, 2, 1.5); m = { fun k(s) s; }; m->k(); r = m.k(4)[0] and true or none; -x; +x; z = y.a.b; g(h(1), [i][0]);", *const B = "l: PUSHINT 12345; PUSHSTR \"some text\"; PUSHFLT 1.5; POP 3; JUMP m; m: PUSHTRU; JUMPIFANDPOP n; n: PUSHVAR \"x\"; PUSHLST 3; PUSHMAP 1; EXIT;";
  int form = (int)sym_param("form", 0), pad = sym_choose("pad", (int)sym_param("pads", 24)); static char src[6000]; src[0] = 0; for (int i = 0; i < pad; i++) strcat(src, form == 1 ? "POP 1; " : "v;\n"); strcat(src, form == 1 ? B : A); if (form != 1) strcat(src, A); long n = 0, b[4]; bool ok0 = false;
  for (int round = 0; round < 4; round++) { if (round == 2) { nsym_alloc_fails = 1; nsym_alloc_fail = 1 + sym_choose("k", (int)n); if (sym_choose("many", 2)) nsym_alloc_fails = 1000000; } nsym_alloc_count = 0; Error e; Error_Init(&e); int off = -7; bool ok = false; Source *s = form < 2 ? Source_FromString("prog", src, -1, &e) : NULL; Executable *exe = NULL; char *d = NULL; if (form == 0 && s) exe = compile(s, &e, &off); if (form == 1 && s) exe = assemble(s, &e, &off); if (form == 2) d = diagramStringAST(src, &e, &off); ok = exe || d; sym_check(ok == !e.occurred, "it works or reports an error"); if (!ok) sym_check(e.message && e.message[0], "with a message"); if (round != 2) { if (round == 0) { ok0 = ok; n = nsym_alloc_count; } sym_check(ok, "without failures it works"); } else { nsym_alloc_fail = 0; sym_cover("refused"); sym_check(!ok, "memory that was needed and refused is an error"); }
    if (exe) Executable_Free(exe); free(d); if (s) Source_Free(s); Error_Free(&e); b[round] = (long)sym_live(); if (round > 1) sym_check(b[round] == b[1], "every block of memory is given back"); } (void)ok0; sym_out(n); }
