// C08 calls and returns, C09 scoping and closures.
#include "nj.h"
static const char *const PN[] = {"p","q","r","s"};
static StaticMapSlot cs[8]; static long long av[5];
static void boot5(StaticMapSlot *extra) { for (int i = 0; i < 5; i++) av[i] = sym_i64("a"); StaticMapSlot in[] = { NJ_INT("A", av[0]), NJ_INT("B", av[1]), NJ_INT("C", av[2]), NJ_INT("D", av[3]), NJ_INT("E", av[4]) }; memcpy(cs, in, sizeof in); if (extra) cs[5] = *extra; else cs[5] = (StaticMapSlot) NJ_END; cs[6] = (StaticMapSlot) NJ_END; if (!nj_boot(cs)) sym_check(0, "boot"); }
// Parameters receive the arguments in order; missing and none arguments take the default or none; extra ones are dropped.
void t_call_args(void) {
  boot5(NULL); int np = sym_choose("np", 5), na = sym_choose("na", 6); unsigned dm = 0, nm = 0;
  for (int i = 0; i < np; i++) dm |= (unsigned)sym_choose("default", 2) << i; for (int i = 0; i < na && i < np; i++) nm |= (unsigned)sym_choose("none", 2) << i;
  int form = sym_choose("form", 3); sb0();
  if (form == 2) sb("o = {"); sb("fun f("); for (int i = 0; i < np; i++) { if (i) sb(","); sb(PN[i]); if (dm >> i & 1) { sb("="); sbi(100 + i); } } sb(") { out("); for (int i = 0; i < np; i++) { if (i) sb(","); sb(PN[i]); } sb("); return 5; }");
  if (form == 2) sb("};"); sb(form == 0 ? "x=f(" : form == 1 ? "f(" : "x=o.f("); for (int i = 0; i < na; i++) { if (i) sb(","); sb(nm >> i & 1 ? "none" : (const char*[]){"A","B","C","D","E"}[i]); } sb(form == 1 ? "); x=5; out(x);" : "); out(x);");
  bool ok = sb_run(); sym_check(ok && nj_nout == np + 1, "calling with any number of arguments works"); if (!ok) sym_end();
  for (int i = 0; i < np; i++) { bool given = i < na && !(nm >> i & 1); if (given) sym_check(nj_isint(i, av[i]), "parameter bound to its argument"); else if (dm >> i & 1) sym_check(nj_isint(i, 100 + i), "default value"); else sym_check(nj_isnone(i), "missing argument is none"); }
  sym_check(nj_isint(np, 5), "return value"); sym_cover("called"); nj_logout(); nj_end();
}
// Returned values are adapted to the number of variables, in order.
void t_call_rets(void) {
  boot5(NULL); int nr = sym_choose("nr", 9), nv = 1 + sym_choose("nv", 9); int form = sym_choose("form", 2); static const char *const SRC[] = {"A","B","C","D","E","6","7","8"}; static const char *const V[] = {"u","v","w","x","y","z","g","h","k"};
  sb0(); sb("fun f() {"); if (nr || form) { } if (nr) { sb("return "); for (int i = 0; i < nr; i++) { if (i) sb(","); sb(SRC[i]); } sb(";"); } sb("}"); 
  if (form == 0) { for (int i = 0; i < nv; i++) { if (i) sb(","); sb(V[i]); } sb("=f(); "); } else { sb("m={};l=[0,0,0];"); for (int i = 0; i < nv; i++) { if (i) sb(","); if (i == 0) sb("l[1]"); else if (i == 1) sb("m.key"); else if (i == 2) sb("m['v']"); else sb(V[i]); } sb("=f(); u=l[1]; v=m.key; w=m['v'];"); }
  sb("out("); for (int i = 0; i < nv; i++) { if (i) sb(","); sb(V[i]); } sb(");out(f());");
  bool ok = sb_run(); sym_check(ok && nj_nout == nv + 1, "any number of values up to 8 can be returned to any number of variables"); if (!ok) sym_end();
  for (int i = 0; i < nv; i++) { if (i < nr) sym_check(nj_isint(i, i < 5 ? av[i] : i + 1), "returned value"); else sym_check(nj_isnone(i), "missing return value is none"); }
  if (nr) sym_check(nj_isint(nv, av[0]), "a call used as an expression is its first value"); else sym_check(nj_isnone(nv), "a call to a function without return is none");
  sym_cover("returned"); nj_logout(); nj_end();
}
// Returning more than 8 values fails with an error instead of corrupting memory.
void t_call_many_rets(void) {
  boot5(NULL); int nr = 7 + sym_choose("nr", 12); sb0(); sb("fun f() return "); for (int i = 0; i < nr; i++) { if (i) sb(","); sb("A"); } sb("; x=f(); out(x);"); bool ok = sb_run();
  sym_check(ok == (nr <= 8), "up to 8 values can be returned"); if (ok) { sym_check(nj_isint(0, av[0]), "first value"); sym_cover("ok"); } else { sym_check(nj_err.occurred && nj_nout == 0, "error reported"); sym_cover("rejected"); } nj_end();
}
// Methods: o->f(x) passes o first.
void t_call_arrow(void) {
  boot5(NULL); int na = sym_choose("na", 4); int key = sym_choose("key", 3); sb0();
  sb(key == 0 ? "o={v:A, fun get(self,x,y) { out(self.v,x,y); self.v=self.v; return x, self.v; }};" : key == 1 ? "fun m(self,x,y) { out(self.v,x,y); return x, self.v; } o={v:A, get:m};" : "o={v:A}; fun m(self,x,y) { out(self.v,x,y); return x, self.v; } o.get = m;");
  sb("r,s=o->get("); for (int i = 0; i < na; i++) { if (i) sb(","); sb((const char*[]){"B","C","D"}[i]); } sb("); out(r,s);");
  bool ok = sb_run(); sym_check(ok && nj_nout == 5, "method call"); if (!ok) sym_end();
  sym_check(nj_isint(0, av[0]) && nj_isint(4, av[0]), "the object is the first argument");
  if (na > 0) sym_check(nj_isint(1, av[1]) && nj_isint(3, av[1]), "first explicit argument"); else sym_check(nj_isnone(1) && nj_isnone(3), "missing argument");
  if (na > 1) sym_check(nj_isint(2, av[2]), "second explicit argument"); else sym_check(nj_isnone(2), "missing argument");
  sym_cover("arrow"); nj_logout(); nj_end();
}
// Native functions: variadic ones get every argument, the others exactly as many as they declare.
static int ngot; static NV gotv[8];
static int bin_n(Runtime *r, Object **argv, unsigned argc, Object *rets[static MAX_RETS], Error *e) { (void)r; (void)rets; (void)e; ngot = (int)argc; for (unsigned i = 0; i < argc && i < 8; i++) nj_read(argv[i], &gotv[i]); return 0; }
void t_call_native(void) {
  static const int NA[] = {-1,0,1,2,3,4}; int decl = NA[sym_choose("declared", 6)], na = sym_choose("na", 6); StaticMapSlot x = NJ_FUN("n", bin_n, 0); x.argc = decl; boot5(&x); ngot = -1;
  sb0(); sb("x=n("); for (int i = 0; i < na; i++) { if (i) sb(","); sb((const char*[]){"A","B","C","D","E"}[i]); } sb("); out(x);"); bool ok = sb_run();
  sym_check(ok && nj_nout == 1 && nj_isnone(0), "a native function can be called with any number of arguments"); int e = decl < 0 ? na : decl;
  sym_check(ngot == e, "number of arguments seen by the native function");
  for (int i = 0; i < e && i < ngot; i++) { if (i < na) sym_check(gotv[i].tag == V_INT && gotv[i].i == av[i], "native argument"); else sym_check(gotv[i].tag == V_NONE, "missing native argument is none"); }
  sym_cover("native"); sym_out(ngot); nj_end();
}
// Calling something that isn't a function aborts.
void t_call_noncallable(void) {
  static const char *const X[] = {"none","true","A","1.5","'str'","[A]","{a:A}","int","buffer.new(2)","A->b","{a:A}.b"}; boot5(NULL); int k = sym_choose("callee", 11), na = sym_choose("na", 3); if (k == 9) sym_end();
  sb0(); sb("x="); sb(X[k]); sb("; out(1); y=x("); for (int i = 0; i < na; i++) { if (i) sb(","); sb("A"); } sb("); out(2);"); bool ok = sb_run();
  sym_check(!ok && nj_err.occurred && nj_nout == 1, "calling a value that isn't a function aborts"); sym_cover("rejected"); sym_out(ok); nj_end();
}
// Recursion: the value computed by a recursive function, for every argument in range.
void t_call_recursion(void) {
  long long n = sym_range("n", 0, 10), a = sym_i64("a"); sym_assume(a > -1000000 && a < 1000000); StaticMapSlot in[] = { NJ_INT("N", n), NJ_INT("X", a), NJ_END }; if (!nj_boot(in)) sym_check(0, "boot"); int form = sym_choose("form", 2);
  bool ok = nj_run(form == 0 ? "fun f(n, acc) { if n <= 0: return acc; return f(n-1, acc+X); } out(f(N, 0));" : "fun even(n) { if n == 0: return true; return odd(n-1); } fun odd(n) { if n == 0: return false; return even(n-1); } out(even(N));");
  sym_check(ok && nj_nout == 1, "bounded recursion works"); if (form == 0) sym_check(nj_isint(0, n * a), "recursive sum"); else sym_check(nj_isbool(0, n % 2 == 0), "mutual recursion"); sym_cover("rec"); nj_logout(); nj_end();
}
// ---------------------------------------------------------------- C09
// Programs over nested functions that read and write two names, against a reference of lexical scoping.
// Function k is defined inside function k-1; statements assign or print x / y.
typedef struct { bool def[2]; long long v[2]; } Env;
static Env env[4]; static int lvl_ops[4][4], lvl_n[4];
static bool rd(int l, int x, long long *v) { for (; l >= 0; l--) if (env[l].def[x]) { *v = env[l].v[x]; return true; } return false; }
void t_scopes(void) {
  boot5(NULL); int depth = (int)sym_param("depth", 2), per = (int)sym_param("per", 2); // ops: 0 x=const 1 y=const 2 out(x) 3 out(y) 4 x=x+1
  for (int l = 0; l <= depth; l++) for (int i = 0; i < per; i++) lvl_ops[l][i] = sym_choose("op", 5);
  unsigned pm = (unsigned)sym_choose("param", 2); // innermost function takes x as a parameter
  sb0(); for (int l = 0; l <= depth; l++) { if (l) { sb("fun f"); sbi(l); sb(l == depth && pm ? "(x) {" : "() {"); }
    for (int i = 0; i < per; i++) { // one op before the nested definition+call, the rest after
      int o = lvl_ops[l][i]; (void)o; }
    int o = lvl_ops[l][0]; if (o < 2) { sb(o ? "y=" : "x="); sbi(l * 10 + o + 1); sb(";"); } else if (o < 4) { sb(o == 2 ? "out(x);" : "out(y);"); } else sb("x=x+1;"); }
  for (int l = depth; l >= 0; l--) { if (l < depth) { sb("f"); sbi(l + 1); sb(l + 1 == depth && pm ? "(A);" : "();"); }
    for (int i = 1; i < per; i++) { int o = lvl_ops[l][i]; if (o < 2) { sb(o ? "y=" : "x="); sbi(l * 10 + o + 5); sb(";"); } else if (o < 4) sb(o == 2 ? "out(x);" : "out(y);"); else sb("x=x+1;"); }
    if (l) sb("}"); }
  bool ok = sb_run(); memset(env, 0, sizeof env); static long long ex[64]; static int ne; ne = 0; bool fail = false; sym_assume(av[0] < INT64_MAX - 10);
  // reference
  for (int l = 0; l <= depth && !fail; l++) { if (l == depth && l && pm) { env[l].def[0] = true; env[l].v[0] = av[0]; }
    int o = lvl_ops[l][0]; long long v; if (o < 2) { env[l].def[o] = true; env[l].v[o] = l * 10 + o + 1; } else if (!rd(l, o == 3, &v)) fail = true; else if (o < 4) ex[ne++] = v; else { env[l].def[0] = true; env[l].v[0] = v + 1; } }
  for (int l = depth; l >= 0 && !fail; l--) for (int i = 1; i < per && !fail; i++) { int o = lvl_ops[l][i]; long long v; if (o < 2) { env[l].def[o] = true; env[l].v[o] = l * 10 + o + 5; } else if (!rd(l, o == 3, &v)) fail = true; else if (o < 4) ex[ne++] = v; else { env[l].def[0] = true; env[l].v[0] = v + 1; } }
  sym_check(ok == !fail, "a program aborts exactly when it reads a variable that isn't visible");
  sym_check(nj_nout == ne, "the reads before the failure happened"); for (int i = 0; i < ne && i < nj_nout; i++) sym_check(nj_isint(i, ex[i]), "a read sees the innermost visible definition");
  if (ok) sym_cover("ok"); else sym_cover("undefined"); nj_logout(); nj_end();
}
// Closures capture their own environment: instances are independent and outlive their creator.
void t_closures(void) {
  boot5(NULL); static const char *const P[] = {
    "fun mk(n) { fun get(k) return [n,k]; return get; } f=mk(A); g=mk(B); r=f(C); s=g(D); out(r[0],r[1],s[0],s[1]);",
    "fun mk(n) { st={v:n}; fun set(k) { st.v=k; } fun get() return st.v; return set, get; } s1,g1=mk(A); s2,g2=mk(B); s1(C); out(g1(),g2()); s2(D); out(g1(),g2());",
    "n=A; fun mk() { fun get() return n; return get; } f=mk(); out(f()); n=B; out(f()); fun other() { n=C; return f(); } out(other()); out(n);",
    "fun a(x) { fun b(y) { fun c(z) return [x,y,z]; return c; } return b; } f=a(A); g=f(B); h=f(C); r=g(D); s=h(E); out(r[0],r[1],r[2],s[0],s[1],s[2]);",
    "fs=[]; i=0; fun mk(k) { fun g() return k; return g; } while i<3: { fs[i]=mk(i*10); i=i+1; } a=fs[0]; b=fs[1]; c=fs[2]; out(a(),b(),c());",
    "x=A; fun f() { x=B; { x=C; } if true: x=D; while x!=E: x=E; return x; } out(f(),x);",
    "fun f(x) { x=B; return x; } x=A; out(f(x),x);" };
  int p = sym_choose("prog", 7); bool ok = nj_run(P[p]); sym_check(ok, "closure program runs"); if (!ok) sym_end();
  static const int E[7][8] = { {0,2,1,3,-1}, {2,1,2,3,-1}, {0,1,1,1,-1}, {0,1,3,0,2,4,-1}, {-1}, {4,0,-1}, {1,0,-1} };
  if (p == 4) sym_check(nj_isint(0, 0) && nj_isint(1, 10) && nj_isint(2, 20), "each closure keeps its own variables");
  for (int i = 0; E[p][i] >= 0; i++) sym_check(nj_isint(i, av[E[p][i]]), "closures see their own environment"); sym_cover("closure"); nj_logout(); nj_end();
}
// Names: any identifier works as a variable; locals never leak to the caller, and builtins can be shadowed.
void t_names(void) {
  boot5(NULL); static char nm[4]; int n = 1 + sym_choose("len", 2); for (int i = 0; i < n; i++) { nm[i] = (char)sym_u8("c"); } nm[n] = 0;
  for (int i = 0; i < n; i++) { char c = nm[i]; sym_assume((c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z') | (c == '_') | ((i > 0) & (c >= '0') & (c <= '9'))); }
  if (n == 1) sym_assume(nm[0] != 'g'); if (n == 2) { sym_assume(!(nm[0] == 'o' && nm[1] == 'r') && !(nm[0] == 'i' && nm[1] == 'f') && !(nm[0] == 'd' && nm[1] == 'o')); }
  sb0(); sbn(nm, n); sb("=7;fun g(){"); sbn(nm, n); sb("=8; zz9=1; return "); sbn(nm, n); sb(";} out("); sbn(nm, n); sb(",g(),"); sbn(nm, n); sb("); out(zz9);");
  bool ok = sb_run(); sym_check(!ok && nj_nout == 3 && nj_isint(0, 7) && nj_isint(1, 8) && nj_isint(2, 7), "identifiers name variables, and locals don't leak"); sym_cover("name"); sym_out(nj_nout); nj_end();
}
// ---------------------------------------------------------------- values of every kind
enum { NK = 12 }; static const char *const KT[NK] = {"none","true","false","0","1.5","''","'s'","[]","[none]","{}","int","g"}; static bool iskind(int o, int k) { NV *v = &nj_out[o]; switch (k) { case 0: return v->tag == V_NONE; case 1: return v->tag == V_BOOL && v->i; case 2: return v->tag == V_BOOL && !v->i; case 3: return v->tag == V_INT && v->i == 0; case 4: return v->tag == V_FLOAT && v->f == 1.5; case 5: return v->tag == V_STR && v->n == 0; case 6: return v->tag == V_STR && v->n == 1; case 7: return v->tag == V_LIST && v->n == 0; case 8: return v->tag == V_LIST && v->n == 1; case 9: return v->tag == V_MAP && v->n == 0; } return v->tag == V_OTHER; }
void t_scope_kinds(void) { // a name can hold anything at each level, whatever it holds at the others
  int d[4], pm = sym_choose("param", 2); d[0] = sym_choose("outer", NK + 1) - 1; d[1] = sym_choose("middle", NK + 1) - 1; d[2] = sym_choose("inner", NK + 1) - 1; int nm = sym_choose("name", 2); const char *x = nm ? "count" : "x"; if (pm && d[2] < 0) sym_end(); if (!nj_boot(NULL)) sym_check(0, "boot");
  sb0(); sb("fun g() 1; "); if (d[0] >= 0) { sb(x); sb(" = "); sb(KT[d[0]]); sb("; "); } sb("fun m() { "); if (d[1] >= 0) { sb(x); sb(" = "); sb(KT[d[1]]); sb("; "); } sb("fun i("); if (pm) sb(x); sb(") { "); if (d[2] >= 0 && !pm) { sb(x); sb(" = "); sb(KT[d[2]]); sb("; "); } sb("out("); sb(x); sb("); } i("); if (pm) sb(KT[d[2]]); sb("); out("); sb(x); sb("); } m(); out("); sb(x); sb(");");
  bool ok = sb_run(); int e = 0; bool fail = false; for (int l = 2; l >= 0 && !fail; l--) { int w = -1; for (int z = l; z >= 0 && w < 0; z--) w = d[z]; if (w < 0 && nm) w = 11; if (w < 0) fail = true; else { sym_check(e < nj_nout && iskind(e, w), "the innermost definition is read, whatever its value"); e++; } } sym_check(ok == !fail && nj_nout == e, "a name that is not defined ends the program"); if (ok) sym_cover("read"); else sym_cover("undefined"); nj_end(); }
void t_pass_kinds(void) { // values of every kind go through calls, returns, assignments, lists and maps unchanged
  int k[3]; for (int i = 0; i < 3; i++) k[i] = sym_choose("kind", NK); int w = sym_choose("way", 8); if (!nj_boot(NULL)) sym_check(0, "boot"); sb0(); sb("fun g() 1; a = "); sb(KT[k[0]]); sb("; b = "); sb(KT[k[1]]); sb("; c = "); sb(KT[k[2]]); sb("; ");
  static const char *const P[] = { "fun f(x, y, z) out(x, y, z); f(a, b, c);", "fun f(x, y, z) return x, y, z; p, q, r = f(a, b, c); out(p, q, r);", "l = [a, b, c]; out(l[0], l[1], l[2]);", "m = {p: a, q: b, r: c}; out(m.p, m.q, m.r);", "l = []; l[0] = a; l[1] = b; l[2] = c; l[0] = l[2]; l[2] = c; l[0] = a; out(l[0], l[1], l[2]);", "m = {}; m.p = c; m.q = b; m.r = c; m.p = a; out(m.p, m.q, m.r);", "p, q, r = a, b, c; p, q = q, p; p, q = q, p; out(p, q, r);", "fun f(x) { y = x; x = y; return y; } p = f(a); q = f(f(b)); r = f(c); out(p, q, r);" }; if (w == 6) sb("fun t() return a, b, c; p, q, r = t(); s = p; p = s; out(p, q, r);"); else sb(P[w]);
  bool ok = sb_run(); sym_check(ok && nj_nout == 3, "runs"); if (!ok) sym_end(); for (int i = 0; i < 3; i++) sym_check(iskind(i, k[i]), "the value that was given"); sym_cover("passed"); nj_end(); }
