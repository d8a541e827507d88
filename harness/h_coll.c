// C11 maps, C12 lists.
#include "nj.h"
static StaticMapSlot xs[10];
// A map with `pre` concrete integer keys, then two symbolic insertions and lookups. Reference: association list.
void t_map_int(void) {
  int pre = (int)sym_param("pre", 4), stride = (int)sym_param("stride", 1), nb = (int)sym_param("bits", 6); long long k[3]; for (int i = 0; i < 3; i++) { k[i] = (long long)sym_u64("k", nb); if (sym_param("neg", 0)) k[i] = -k[i]; }
  int ns = (int)sym_param("sym", 2); StaticMapSlot in[] = { NJ_INT("X", k[0]), NJ_INT("Y", k[1]), NJ_INT("Z", k[2]), NJ_END }; if (!nj_boot(in)) sym_check(0, "boot");
  bool late = sym_choose("late", 2); sb0(); sb("m={}; "); if (late) { sb("m[X]='x';"); if (ns > 1) sb("m[Y]='y';"); }
  for (int i = 0; i < pre; i++) { sb("m["); sbi(i * stride); sb("]="); sbi(i); sb(";"); } if (!late) { sb("m[X]='x';"); if (ns > 1) sb("m[Y]='y';"); }
  sb("out(m[X], m[Z], count(m));"); if (ns > 1) sb("out(m[Y]); "); int base = 3 + (ns > 1); for (int i = 0; i < pre; i++) { sb("out(m["); sbi(i * stride); sb("]);"); } sb("out(count(keysof(m)));");
  bool ok = sb_run(); sym_check(ok && nj_nout == base + pre + 1, "map operations don't fail"); if (!ok) sym_end();
  // reference
  long long rk[40]; int rt[40]; long long rv[40]; int n = 0;
  #define PUT(K, TG, V) do { int z_; for (z_ = 0; z_ < n; z_++) if (rk[z_] == (K)) break; if (z_ == n) { rk[n] = (K); n++; } rt[z_] = TG; rv[z_] = V; } while (0)
  if (late) { PUT(k[0], 1, 'x'); if (ns > 1) PUT(k[1], 1, 'y'); } for (int i = 0; i < pre; i++) PUT((long long)i * stride, 0, i); if (!late) { PUT(k[0], 1, 'x'); if (ns > 1) PUT(k[1], 1, 'y'); }
  for (int q = 0; q < base + pre; q++) { if (q == 2) continue; long long key = q == 0 ? k[0] : q == 1 ? k[2] : q == 3 && ns > 1 ? k[1] : (long long)(q - base) * stride; int z; for (z = 0; z < n; z++) if (rk[z] == key) break;
    if (z == n) sym_check(nj_isnone(q), "a key that wasn't inserted selects none"); else if (rt[z]) { char c = (char)rv[z]; sym_check(nj_isstr(q, &c, 1), "a key selects the last value inserted with it"); } else sym_check(nj_isint(q, rv[z]), "keys inserted earlier keep their value across growth"); }
  sym_check(nj_isint(2, n) && nj_isint(base + pre, n), "the count is the number of distinct keys"); if (n == pre) sym_cover("overwritten"); else sym_cover("new"); nj_logout(); nj_end();
}
static uint64_t mask64(int lo, int hi) { uint64_t a = sym_u8("byte"), b = sym_u8("byte"); return a << (8 * lo) | b << (8 * hi); }
// Two keys of any scalar kinds: they denote the same entry exactly when they're equal.
void t_map_kinds(void) {
  long long i = mask64(0, 7), j = mask64(0, 7); uint64_t fb = mask64(6, 7), gb = mask64(6, 7); double f, g; memcpy(&f, &fb, 8); memcpy(&g, &gb, 8); bool b = sym_bool("b"), c = sym_bool("c"); char s[3], t[3]; sym_bytes(s, 2, "s"); sym_bytes(t, 2, "t"); int ls = sym_choose("ls", 3), lt = sym_choose("lt", 3);
  for (int q = 0; q < 2; q++) { sym_assume((unsigned char)s[q] < 128); sym_assume((unsigned char)t[q] < 128); }
  StaticMapSlot in[] = { NJ_INT("I", i), NJ_INT("J", j), NJ_FLT("F", f), NJ_FLT("G", g), NJ_BOOL("B", b), NJ_BOOL("C", c), NJ_STR("S", s, ls), NJ_STR("T", t, lt), NJ_END }; if (!nj_boot(in)) sym_check(0, "boot");
  static const char *const A[] = {"none","B","I","F","S","int"}, *const D[] = {"none","C","J","G","T","float"}; int a = sym_choose("ka", 6), d = sym_choose("kb", 6); if ((a != 4 && d != 4) && (ls || lt)) sym_end();
  sb0(); sb("m={}; m["); sb(A[a]); sb("]=1; out(m["); sb(A[a]); sb("], m["); sb(D[d]); sb("]); m["); sb(D[d]); sb("]=2; out(m["); sb(A[a]); sb("],m["); sb(D[d]); sb("],count(m));"); bool ok = sb_run();
  bool ty = a == 5 || d == 5; // types may not be hashable or comparable
  bool eq = a == d && (a == 0 || (a == 1 && b == c) || (a == 2 && i == j) || (a == 3 && f == g) || (a == 4 && ls == lt && memcmp(s, t, ls) == 0)); bool nan = (a == 3 && f != f), nan2 = d == 3 && g != g;
  if (ty) sym_end();
  sym_check(ok && nj_nout == 5, "scalars can be map keys"); if (!ok) sym_end();
  if (nan) sym_check(nj_isnone(0), "NaN equals no key"); else sym_check(nj_isint(0, 1), "lookup after insertion");
  if (eq) sym_check(nj_isint(1, 1) && nj_isint(2, 2) && nj_isint(3, 2) && nj_isint(4, 1), "equal keys denote one entry");
  else { sym_check(nj_isnone(1) && nj_isint(4, 2), "different keys denote different entries"); if (!nan) sym_check(nj_isint(2, 1), "the first entry is unaffected"); if (!nan2) sym_check(nj_isint(3, 2), "the second entry"); }
  if (eq) sym_cover("equal"); else sym_cover("different"); nj_logout(); nj_end();
}
// Long histories: n keys of the form base+i*stride, inserted, overwritten, and all looked up at every size.
void t_map_growth(void) {
  long long n = sym_param("n", 24); int kind = sym_choose("kind", 3), st = sym_choose("stride", n > 40 ? 2 : 4); static const long long ST[] = {1, 8, -3, 1LL << 33}; StaticMapSlot in[] = { NJ_INT("N", n), NJ_INT("STR", ST[st]), NJ_INT("V", sym_i64("v")), NJ_END }; long long v = in[2].as_int; sym_assume(v > -(1LL << 40) && v < (1LL << 40)); if (!nj_boot(in)) sym_check(0, "boot");
  static const char *const K[] = {"i*STR","1.0*i*STR","string.cat('k',toString(i*STR))"}; sb0();
  sb("m={}; i=0; while i<N: { m["); sb(K[kind]); sb("]=V+i; i=i+1; out(count(m),m['no']); } i=0; while i<N: { out(m["); sb(K[kind]); sb("]); i=i+1; } out(count(m), m['nope'], m[N*STR+1]); i=0; while i<N: { m["); sb(K[kind]); sb("]=i; i=i+2; } i=0; while i<N: { out(m["); sb(K[kind]); sb("]); i=i+1; } out(count(m));");
  bool ok = sb_run(); sym_check(ok && nj_nout == 4 * n + 4, "insertions and lookups don't fail"); if (!ok) sym_end(); int o = 0;
  for (int i = 0; i < n; i++) { sym_check(nj_isint(o++, i + 1), "each new key adds one entry"); sym_check(nj_isnone(o++), "an absent key stays absent"); } for (int i = 0; i < n; i++) sym_check(nj_isint(o++, v + i), "every key keeps its value"); sym_check(nj_isint(o, n) && nj_isnone(o + 1) && nj_isnone(o + 2), "absent keys"); o += 3;
  for (int i = 0; i < n; i++) sym_check(nj_isint(o++, i % 2 ? v + i : i), "overwriting changes just that key"); sym_check(nj_isint(o, n), "overwriting adds no entry"); sym_cover("grown"); sym_out(nj_nout); nj_end();
}
// Literals, dot access, keysof order, keys are copied, unhashable keys are errors.
void t_map_syntax(void) {
  long long v[3]; for (int i = 0; i < 3; i++) v[i] = sym_i64("v"); StaticMapSlot in[] = { NJ_INT("A", v[0]), NJ_INT("B", v[1]), NJ_INT("C", v[2]), NJ_END }; if (!nj_boot(in)) sym_check(0, "boot");
  static const char *const P[] = {
    "m={a:A,b:B,'c d':C}; out(m.a,m['b'],m['c d'],m.zz,count(m));", "m={a:A,b:B,a:C}; out(m.a,m.b,m.a,m.c,count(m)+1);", "m={}; m.a=A; m['b']=B; m.c=C; out(m['a'],m.b,m.c,m.q,count(m));",
    "k='a'; m={(k):A, +k:A, b:B, c:C}; " "out(m.a,m.b,m.c,m.k,count(m));", "m={a:A,b:B,c:C}; ks=keysof(m); out(m[ks[0]],m[ks[1]],m[ks[2]],ks[3],count(ks));", "m={x:{y:{a:A}},b:[0,B],c:C}; out(m.x.y.a,m.b[1],m.c,m.x.z,count(m));", "m={a:0,b:0,c:C}; m.a=A; n=m; n.b=B; out(m.a,m.b,n.c,m.d,count(n));",
    "m={true:A, 1:B, 1.5:C}; out(m[true],m[1],m[1.5],m[false],count(m));"};
  int p = sym_choose("prog", 8); bool ok = nj_run(p == 3 ? "k='a'; m={(k):A, b:B, c:C}; out(m.a,m.b,m.c,m.k,count(m));" : P[p]); sym_check(ok && nj_nout == 5, "map program runs"); if (!ok) sym_end();
  sym_check(nj_isint(0, p == 1 ? v[2] : v[0]) && nj_isint(1, v[1]) && nj_isint(2, v[2]) && nj_isnone(3) && nj_isint(4, 3), "map literals and selections"); sym_cover("syntax"); nj_logout(); nj_end();
}
void t_map_badkeys(void) { static const char *const P[] = {"m[print]=1;","m[buffer.new(1)]=1;","fun f() return 1; m[f]=1;","l=[1]; l[0]=l; m[l]=1;","m[m]=1; m[m]=1; ","l=[1]; m[l]=A; l[0]=2; out(m[[2]],count(m)); error('x');","m=5; m[1]=2;","m=none; m.x=2;","m='abc'; m[0]='x';","m=int; m[0]=1;"};
  StaticMapSlot in[] = { NJ_INT("A", sym_i64("v")), NJ_END }; if (!nj_boot(in)) sym_check(0, "boot"); int p = sym_choose("prog", 10); if (p == 4) sym_end(); sb0(); sb("m={}; out(1);"); sb(P[p]); sb("out(2);"); bool ok = sb_run();
  sym_check(!ok && nj_err.occurred, "unsupported keys and targets abort"); if (p == 5) sym_check(nj_nout == 3 && nj_isnone(1) && nj_isint(2, 1), "keys are copied on insertion"); else sym_check(nj_nout == 1, "the program stops there"); sym_cover("bad"); sym_out(ok); nj_end(); }
// ---------------------------------------------------------------- C12
// Any sequence of writes at any 64-bit index, against an array model.
void t_list_ops(void) {
  int n = (int)sym_param("ops", 3), pre = (int)sym_param("pre", 2); long long ix[5], q = sym_i64("q"); static const char *const X[] = {"I0","I1","I2","I3"}; for (int i = 0; i < 5; i++) xs[i] = (StaticMapSlot) NJ_END; for (int i = 0; i < n; i++) { ix[i] = sym_i64("idx"); xs[i] = (StaticMapSlot) NJ_INT(X[i], 0); xs[i].as_int = ix[i]; } xs[n] = (StaticMapSlot) NJ_INT("Q", 0); xs[n].as_int = q; xs[n + 1] = (StaticMapSlot) NJ_END;
  if (!nj_boot(xs)) sym_check(0, "boot"); sb0(); sb("l=["); for (int i = 0; i < pre; i++) { if (i) sb(","); sbi(i); } sb("];"); for (int i = 0; i < n; i++) { sb("l["); sb(X[i]); sb("]="); sbi(100 + i); sb("; out(count(l));"); } sb("out(l[Q]); i=0; while i<count(l): { out(l[i]); i=i+1; }");
  bool ok = sb_run(); long long m[40]; int c = pre, o = 0; for (int i = 0; i < pre; i++) m[i] = i; bool fail = false;
  for (int i = 0; i < n && !fail; i++) { if (ix[i] < 0 || ix[i] > c) fail = true; else { if (ix[i] == c) { m[c++] = 100 + i; } else { for (int z = 0; z < c; z++) if (z == ix[i]) m[z] = 100 + i; } sym_check(nj_isint(o++, c), "writing at the end appends, writing inside doesn't"); } }
  sym_check(ok == !fail, "writes outside of [0,count] abort, all others succeed");
  if (ok) { bool in = q >= 0 && q < c; if (!in) sym_check(nj_isnone(o), "reading out of range gives none"); else { long long e = 0; for (int z = 0; z < c; z++) if (z == q) e = m[z]; sym_check(nj_isint(o, e), "reading gives the stored item"); } o++; for (int z = 0; z < c; z++) sym_check(nj_isint(o++, m[z]), "items keep their order"); sym_cover("ok"); } else { sym_check(nj_err.occurred && nj_nout == o, "abort stops the program"); sym_cover("abort"); }
  sym_check(nj_nout == o, "number of items"); nj_logout(); nj_end();
}
void t_list_growth(void) { long long n = sym_param("n", 40), v = sym_i64("v"); sym_assume(v > -(1LL << 40) && v < (1LL << 40)); int form = sym_choose("form", 4); StaticMapSlot in[] = { NJ_INT("N", n), NJ_INT("V", v), NJ_END }; if (!nj_boot(in)) sym_check(0, "boot"); sb0();
  sb(form & 1 ? "l=[V,V+1,V+2,V+3,V+4,V+5,V+6,V+7,V+8,V+9]; i=10;" : "l=[]; i=0;"); sb(form & 2 ? "while i<N: { append(l,V+i); i=i+1; }" : "while i<N: { l[i]=V+i; i=i+1; }"); sb("i=0; while i<N: { out(l[i]); i=i+1; } out(count(l),l[N],l[-1]); ks=keysof(l); out(count(ks),ks[0],ks[N-1],ks[N]);"); bool ok = sb_run();
  sym_check(ok && nj_nout == n + 7, "lists grow without limits"); if (!ok) sym_end(); for (int i = 0; i < n; i++) sym_check(nj_isint(i, v + i), "item"); sym_check(nj_isint((int)n, n) && nj_isnone((int)n + 1) && nj_isnone((int)n + 2), "count and bounds"); sym_check(nj_isint((int)n + 3, n) && nj_isint((int)n + 4, 0) && nj_isint((int)n + 5, n - 1) && nj_isnone((int)n + 6), "keysof lists the indices"); sym_cover("grown"); sym_out(nj_nout); nj_end(); }
// Indices that aren't integers; aliasing; nesting; tuple assignment into items.
void t_list_misc(void) { long long a = sym_i64("a"), b = sym_i64("b"); StaticMapSlot in[] = { NJ_INT("A", a), NJ_INT("B", b), NJ_FLT("F", sym_f64("f")), NJ_END }; if (!nj_boot(in)) sym_check(0, "boot");
  static const char *const P[] = {"l=[A,B]; m=l; m[0]=B; m[2]=A; out(l[0],l[1],l[2],count(l));","l=[[A],[B]]; k=l[1]; k[0]=A; out(l[0][0],l[1][0],l[1],l[9][0]);","l=[0,0]; fun f(x) { x[0]=A; x[2]=B; } f(l); out(l[0],l[1],l[2],count(l));","l=[A]; out(l[0.0],l['0'],l[none],l[true]);","l=[A,B]; l[0]=l[1]=7; out(l[0],l[1],count(l),l[2]);","l=[1,2]; out(([A,B])[1],[A][0],l[l[0]],[A,B,][1]);"};
  int p = sym_choose("prog", 6); if (p == 5) sym_end(); bool ok = nj_run(P[p]); sym_check(ok && nj_nout == 4, "list program runs"); if (!ok) sym_end();
  bool r = p == 0 ? nj_isint(0, b) && nj_isint(1, b) && nj_isint(2, a) && nj_isint(3, 3) : p == 1 ? nj_isint(0, a) && nj_isint(1, a) && nj_out[2].tag == V_LIST && nj_isnone(3) : p == 2 ? nj_isint(0, a) && nj_isint(1, 0) && nj_isint(2, b) && nj_isint(3, 3) : p == 3 ? nj_isnone(0) && nj_isnone(1) && nj_isnone(2) && nj_isnone(3) : nj_isint(0, 7) && nj_isint(1, 7) && nj_isint(2, 2) && nj_isnone(3);
  sym_check(r, "lists are shared by reference"); sym_cover("misc"); nj_logout(); nj_end(); }
void t_list_badwrite(void) { static const char *const K[] = {"0.0","'0'","none","true","F","[0]","int","-1","A"}; long long a = sym_i64("a"); StaticMapSlot in[] = { NJ_INT("A", a), NJ_FLT("F", sym_f64("f")), NJ_END }; if (!nj_boot(in)) sym_check(0, "boot"); int k = sym_choose("key", 9); sb0(); sb("l=[1,2,3]; out(1); l["); sb(K[k]); sb("]=9; out(l[0]+l[1]+l[2],count(l));"); bool ok = sb_run(); bool good = k == 8 && a >= 0 && a <= 3;
  sym_check(ok == good, "only integer indices in range can be written"); sym_check(nj_nout == (good ? 3 : 1), "abort"); if (good) { sym_cover("good"); sym_check(nj_isint(2, a == 3 ? 4 : 3), "count"); } else sym_cover("bad"); sym_out(ok); nj_end(); }
void t_map_keycopy(void) { // a key is a copy: changing the collection it was made from doesn't change the map
  static const struct { const char *mk, *mut, *sel; } K[] = { {"i=[V]; k=[i];", "i[0]=9; k[1]=3; k[0]=none;", "[0][0]"}, {"i=[V]; k={a:i};", "i[0]=9; k.b=3; k.a=none;", ".a[0]"}, {"i={a:V}; k=[[i]];", "i.a=9; k[0][0]=1;", "[0][0].a"}, {"i=[[V]]; k={a:{b:i}};", "i[0][0]=9; i[0]=4;", ".a.b[0][0]"}, {"i=[V]; k=[i,i];", "i[0]=9;", "[1][0]"} };
  long long v = sym_i64("v"); StaticMapSlot in[] = { NJ_INT("V", v), NJ_END }; if (!nj_boot(in)) sym_check(0, "boot"); int k = sym_choose("k", 5), form = sym_choose("form", 2); sb0(); sb(K[k].mk); sb(form ? "m={}; m.z=1; m[k]=5;" : "m={z:1}; m[k]=5; m.y=2;"); sb(K[k].mut); sb("q=keysof(m)[1]; out(q"); sb(K[k].sel); sb("); out(count(m)); out(m.z);"); bool ok = sb_run(); sym_check(ok, "collections can be keys"); if (!ok) sym_end(); sym_check(nj_isint(0, v), "a key is what it was when it was inserted"); sym_check(nj_isint(1, form ? 2 : 3) && nj_isint(2, 1), "the map is unchanged"); sym_cover("key copy"); nj_logout(); nj_end(); }
// The namespaces of the library are maps from names to values: a key that isn't exactly a name has none, and they can't be changed.
void t_namespace(void) {
  static const struct { const char *ns, *name; } N[] = { {"string", "cat"}, {"string", "ord"}, {"buffer", "new"}, {"buffer", "sliceUp"}, {"files", "openFile"}, {"files", "READ"}, {"math", "PI"}, {"math", "sqrt"}, {"net", "bind"}, {"string", "trim"}, {"math", "atan2"}, {"files", "nextDirItem"} };
  int k = sym_choose("name", 12), w = sym_choose("what", 6); static char key[40]; int n = (int)strlen(N[k].name); memcpy(key, N[k].name, n + 1); bool same = w == 0; if (w == 1) key[n++] = (char)sym_range("c", 0, 127); else if (w == 2) { key[n++] = 0; memcpy(key + n, N[k].name, strlen(N[k].name)); n *= 2; n--; } else if (w == 3) { n = n - 1; if (!strcmp(N[k].name, "atan2")) sym_end(); } else if (w == 4) { int p = n / 2; char c = (char)sym_range("c", 0, 127); sym_assume(c != key[p]); key[p] = c; } else if (w == 5) { n = sym_choose("empty", 2); key[0] = 0; }
  StaticMapSlot sl[] = { NJ_STR("K", key, n), NJ_END }; if (!nj_boot(sl)) return; sb0(); sb("out("); sb(N[k].ns); sb("[K] != none, "); sb(N[k].ns); sb("[1], "); sb(N[k].ns); sb("[none], count([1])); "); sb(N[k].ns); sb("[K] = 1; out(2);"); bool ok = nj_run(nj_src); sym_check(!ok && nj_nout == 4, "a namespace can be read but not changed"); sym_check(nj_isbool(0, same), "exactly the names it has are its keys"); sym_check(nj_isnone(1) && nj_isnone(2), "and nothing but names"); sym_cover(same ? "name" : "other"); nj_end(); }
