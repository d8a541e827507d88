// The same properties at larger sizes: mostly concrete data of many lengths with symbolic elements at chosen places.
#include "nj.h"
static const int LAD[] = {5,8,12,13,16,17,31,32,33,63,64,65,100,127,128,129,255,256,257,300};
static char bs[5200], bt[5200];
static const int *bigpos(int n) { static int p[5]; p[0] = 0; p[1] = n / 2; p[2] = n - 1; p[3] = n > 8 ? 8 : 1; p[4] = n > 64 ? 64 : n - 2; return p; }
// C04/C11: strings that agree except in one character, or of which one is a prefix of the other, as operands and as keys.
void t_big_str_eq(void) {
  StaticMapSlot f[] = { NJ_STR("S", bs, 0), NJ_STR("T", bt, 0), NJ_END }; int n = LAD[sym_choose("len", 20)], form = sym_choose("form", 3), wide = sym_choose("wide", 2); for (int i = 0; i < n; i++) bs[i] = (char)('a' + i % 26);
  if (wide) for (int i = 0; i + 1 < n && i < 8; i += 2) { bs[i] = (char)0xC3; bs[i + 1] = (char)0xA9; } memcpy(bt, bs, n); int m = n; bool eq = true; uint8_t c = 0; int c1 = 0;
  if (form == 0) { int p = bigpos(n)[sym_choose("pos", 5)]; if (wide && p < 8) sym_end(); c1 = p; c = sym_u8("c"); sym_assume(c < 128); bt[p] = (char)c; eq = (unsigned char)bs[p] == c; } else if (form == 1) bt[m++] = (char)(sym_u8("c") & 127); if (form == 1) eq = false;
  f[0].length = n; f[1].length = m; if (!nj_boot(f)) sym_check(0, "boot"); bool keys = form || n <= 16 || c1 >= n - 8; /* the hash of a long text in a symbolic byte near its beginning is beyond the solver */ bool ok = nj_run(keys ? "out(S==T, S!=T, T==S); m={}; m[S]=1; out(m[S], m[T]); m[T]=2; out(m[S], m[T], count(m));" : "out(S==T, S!=T, T==S);"); sym_check(ok && nj_nout == (keys ? 8 : 3), "strings compare and are keys"); if (!ok) sym_end();
  sym_check(nj_isbool(0, eq) && nj_isbool(1, !eq) && nj_isbool(2, eq), "strings are equal when all their characters are"); if (keys) sym_check(nj_isint(3, 1) && (eq ? nj_isint(4, 1) : nj_isnone(4)), "lookup by string"); if (keys) sym_check(nj_isint(5, eq ? 2 : 1) && nj_isint(6, 2) && nj_isint(7, eq ? 1 : 2), "insertion by string"); if (eq) sym_cover("equal"); else sym_cover("different"); nj_logout(); nj_end();
}
// C12: lists of many sizes built by appending, by a literal, or by both.
void t_big_list(void) {
  long long v = sym_i64("v"), q = sym_choose("q", 4); sym_assume(v > -(1LL << 40) && v < (1LL << 40)); StaticMapSlot in[] = { NJ_INT("V", v), NJ_INT("Q", q), NJ_END }; if (!nj_boot(in)) sym_check(0, "boot");
  int n = LAD[1 + sym_choose("n", 19)], lit = sym_choose("lit", 3); int k = lit == 0 ? 0 : lit == 1 ? n : n / 2; sb0(); sb("l=["); for (int i = 0; i < k; i++) { if (i) sb(","); sb("V+"); sbi(i); } sb("]; i="); sbi(k); sb("; n="); sbi(n); sb("; while i<n: { l[i]=V+i; i=i+1; } l[n-1-Q]=0; i=0; while i<n: { out(l[i]); i=i+1; } out(count(l), l[n], count(keysof(l)));");
  bool ok = sb_run(); sym_check(ok && nj_nout == n + 3, "lists grow without limits"); if (!ok) sym_end(); for (int i = 0; i < n; i++) sym_check(nj_isint(i, i == n - 1 - q ? 0 : v + i), "every item keeps its value"); sym_check(nj_isint(n, n) && nj_isnone(n + 1) && nj_isint(n + 2, n), "count and bounds"); sym_cover("list"); sym_out(nj_nout); nj_end();
}
// C11: maps of many sizes; absent keys at every size are checked by t_map_growth.
void t_big_map(void) {
  long long n = sym_param("n", 130), v = sym_i64("v"); sym_assume(v > -(1LL << 40) && v < (1LL << 40)); StaticMapSlot in[] = { NJ_INT("N", n), NJ_INT("V", v), NJ_END }; if (!nj_boot(in)) sym_check(0, "boot"); int kind = sym_choose("kind", 2); static const char *const K[] = {"i*7","string.cat('key',toString(i))"}; sb0();
  sb("m={}; i=0; while i<N: { m["); sb(K[kind]); sb("]=V+i; i=i+1; } i=N-1; while i>=0: { out(m["); sb(K[kind]); sb("]); i=i-1; } out(count(m), m['zz'], m[N*7], count(keysof(m)));"); bool ok = sb_run(); sym_check(ok && nj_nout == n + 4, "maps grow without limits"); if (!ok) sym_end();
  for (int i = 0; i < n; i++) sym_check(nj_isint(i, v + (n - 1 - i)), "every key keeps its value"); sym_check(nj_isint((int)n, n) && nj_isnone((int)n + 1) && nj_isnone((int)n + 2) && nj_isint((int)n + 3, n), "absent keys and counts"); sym_cover("map"); sym_out(nj_nout); nj_end();
}
void t_zero_keys(void) { // 0.0 and -0.0 are equal and so they are one key, however large the map is
  static const int N[] = {0, 5, 40, 90, 150, 300}; int n = N[sym_choose("n", 6)], first = sym_choose("first", 2), when = sym_choose("when", 2); StaticMapSlot in[] = { NJ_INT("N", n), NJ_FLT("A", first ? -0.0 : 0.0), NJ_FLT("B", first ? 0.0 : -0.0), NJ_END }; if (!nj_boot(in)) sym_check(0, "boot"); sb0();
  sb("m={}; "); if (when) sb("m[A]=1; "); sb("i=0; while i<N: { m[i*7+1]=i; i=i+1; } "); if (!when) sb("m[A]=1; "); sb("out(m[A],m[B],count(m)); m[B]=2; out(m[A],m[B],count(m),A==B);"); bool ok = sb_run(); sym_check(ok && nj_nout == 7, "runs"); sym_check(nj_isint(0, 1) && nj_isint(1, 1) && nj_isint(2, n + 1) && nj_isint(3, 2) && nj_isint(4, 2) && nj_isint(5, n + 1) && nj_isbool(6, true), "equal keys are one key"); sym_cover("zero"); sym_out(n); nj_end(); }
// C13: slices, trims and concatenations of long strings, with symbolic characters at the edges.
static int nj_bin_same(Runtime *r, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *e) { (void)e; if (argc != 2 || !Object_IsString(argv[0])) return -1; size_t n, m; const char *s = Object_GetString(argv[0], &n), *t = Object_GetString(argv[1], &m); rets[0] = Object_FromBool(n == m && memcmp(s, t, n) == 0, Runtime_GetHeap(r), e); return 1; }
void t_big_str_ops(void) {
  StaticMapSlot in[] = { NJ_STR("S", bs, 0), NJ_STR("W", bt, 0), NJ_INT("OFF", 0), NJ_INT("LEN", 0), NJ_FUN("same", nj_bin_same, 2), NJ_END }; int n = LAD[sym_choose("len", 20)], op = sym_choose("op", 3); for (int i = 0; i < n; i++) bs[i] = (char)('a' + i % 26); bs[n - 1] = (char)(sym_u8("c") & 127); bs[0] = (char)(sym_u8("c") & 127); in[0].length = n; int m = 0;
  if (op == 0) { int o = bigpos(n)[sym_choose("off", 5)], l = sym_choose("l", 3); m = l == 0 ? n - o : l == 1 ? (n - o) / 2 : 0; memcpy(bt, bs + o, m); in[2].as_int = o; in[3].as_int = m; }
  else if (op == 1) { int a = sym_choose("a", 4), b = sym_choose("b", 4); sym_assume(bs[0] != ' ' && bs[n - 1] != ' ' && bs[0] != '\t' && bs[n - 1] != '\t' && !((bs[0] >= 9) & (bs[0] <= 13)) && !((bs[n - 1] >= 9) & (bs[n - 1] <= 13))); memcpy(bt, bs, n); m = n; memmove(bs + a * 7, bs, n); memset(bs, ' ', a * 7); memset(bs + a * 7 + n, ' ', b * 9); in[0].length = n + a * 7 + b * 9; }
  else { memcpy(bt, bs, n); bt[n] = '-'; memcpy(bt + n + 1, bs, n); memcpy(bt + 2 * n + 1, "xyz", 3); m = 2 * n + 4; } in[1].length = m;
  if (!nj_boot(in)) sym_check(0, "boot"); bool ok = nj_run(op == 0 ? "r=string.slice(S,OFF,LEN); out(same(r,W), r==W, count(r));" : op == 1 ? "r=string.trim(S); out(same(r,W), r==W, count(r));" : "r=string.cat(S,'-',S,'xyz'); out(same(r,W), r==W, count(r));"); sym_check(ok && nj_nout == 3, "string functions work on long strings"); if (!ok) sym_end(); sym_check(nj_isbool(0, true) && nj_isbool(1, true) && nj_isint(2, m), "the result is the specified text"); sym_cover("op"); nj_logout(); nj_end();
}
void t_big_cat_many(void) { char c = (char)(sym_u8("c") & 127); StaticMapSlot in[] = { NJ_STR("C", &c, 1), NJ_STR("W", bt, 0), NJ_END }; int n = 1 + sym_choose("n", 14), at = sym_choose("at", 3); int m = 0; sb0(); sb("r=string.cat("); for (int i = 0; i < n; i++) { if (i) sb(","); if (i == (at == 0 ? 0 : at == 1 ? n / 2 : n - 1)) { sb("C"); bt[m++] = c; } else { sb("'a"); sbi(i); sb("'"); bt[m++] = 'a'; if (i > 9) bt[m++] = (char)('0' + i / 10); bt[m++] = (char)('0' + i % 10); } } sb("); out(r==W, count(r));"); in[1].length = m; if (!nj_boot(in)) sym_check(0, "boot"); bool ok = sb_run(); sym_check(ok && nj_isbool(0, true) && nj_isint(1, m), "any number of strings is joined in order"); sym_cover("cat"); nj_logout(); nj_end(); }
// C14: one arbitrary sequence of up to 3 bytes inside of a long text.
void t_big_utf8(void) {
  StaticMapSlot in[] = { NJ_END, NJ_END, NJ_END }; int n = LAD[sym_choose("len", 20)], p = bigpos(n)[sym_choose("pos", 5)]; if (p + 3 > n) p = n - 3; uint8_t b[3]; sym_bytes(b, 3, "b"); for (int i = 0; i < n; i++) bs[i] = (char)('a' + i % 26); bool tail = sym_choose("wide", 2); if (p >= 5) { bs[0] = (char)0xF0; bs[1] = (char)0x9F; bs[2] = (char)0x98; bs[3] = (char)0x80; } memcpy(bs + p, b, 3); (void)tail;
  int chars = 0; bool good; { // reference for the three bytes
    bool A0 = b[0] < 128, A1 = b[1] < 128, A2 = b[2] < 128, X1 = (b[1] & 0xC0) == 0x80, X2 = (b[2] & 0xC0) == 0x80; bool t0 = (b[0] >= 0xC2) & (b[0] < 0xE0) & X1, t1 = (b[1] >= 0xC2) & (b[1] < 0xE0) & X2, th = ((b[0] & 0xF0) == 0xE0) & X1 & X2 & !((b[0] == 0xE0) & (b[1] < 0xA0)); sym_assume(!((b[0] == 0xED) & (b[1] >= 0xA0)));
    good = (A0 & A1 & A2) | (A0 & t1) | (t0 & A2) | th; chars = (A0 & A1 & A2) ? 3 : (A0 & t1) | (t0 & A2) ? 2 : 1; }
  if (!nj_boot(NULL)) sym_check(0, "boot"); in[0] = (StaticMapSlot) NJ_END; Error e; Error_Init(&e); Object *o = Object_FromString(bs, n, Runtime_GetHeap(nj_rt), &e); sym_check((o != NULL) == good, "text is accepted exactly when all of it is well-formed"); if (o) { sym_check(Object_Count(o, &e) == n - 3 + chars - (p >= 5 ? 3 : 0), "characters are counted"); Object *k = Object_FromInt(n - 3 + chars - (p >= 5 ? 3 : 0) - 1, Runtime_GetHeap(nj_rt), &e), *l = Object_Select(o, k, Runtime_GetHeap(nj_rt), &e); size_t z = 0; const char *t = l ? Object_GetString(l, &z) : NULL; sym_check(t && z >= 1 && z <= 3 && memcmp(t, bs + n - z, z) == 0, "the last character is selected whole"); sym_cover("good"); } else sym_cover("bad"); sym_out(good); Error_Free(&e); nj_end();
}
// C15: larger buffers.
void t_big_buf(void) {
  static const int Z[] = {15,16,17,127,128,129,255,256,257,1000,4096,65535,65536,65537}; long long i = sym_i64("i"), w = sym_i64("w"); int z = Z[sym_choose("size", 14)], off = sym_choose("off", 4); long long o = off == 0 ? 0 : off == 1 ? z / 2 : off == 2 ? z - 1 : 1; int near = sym_choose("near", 4); sym_assume(near == 0 ? i < 0 : near == 1 ? i >= z - o : 1); if (near == 2) sym_assume(i == 0); if (near == 3) sym_assume(i == z - o - 1);
  StaticMapSlot in[] = { NJ_INT("I", i), NJ_INT("W", w), NJ_INT("Z", z), NJ_INT("O", o), NJ_END }; if (!nj_boot(in)) sym_check(0, "boot"); bool ok = nj_run("b=buffer.new(Z); s=buffer.sliceUp(b,O,Z-O); out(count(b),count(s),s[I]); s[I]=W; out(s[I],b[O+I],b[O+I+1],b[O+I-1],b[Z],b[-1]);"); bool good = i >= 0 && i < z - o && w >= 0 && w < 256;
  sym_check(ok == good, "only bytes at indices in range can be written"); sym_check(nj_isint(0, z) && nj_isint(1, z - o) && (i >= 0 && i < z - o ? nj_isint(2, 0) : nj_isnone(2)), "sizes"); if (good) { sym_check(nj_nout == 9 && nj_isint(3, w) && nj_isint(4, w) && nj_isnone(7) && nj_isnone(8), "a slice shares its buffer's bytes"); sym_check(o + i + 1 < z ? nj_isint(5, 0) : nj_isnone(5), "next byte"); sym_check(o + i > 0 ? nj_isint(6, 0) : nj_isnone(6), "previous byte"); sym_cover("good"); } else sym_cover("bad"); nj_logout(); nj_end();
}
// C07: deep nesting of loops, long chains of conditions, long bodies, long loops.
void t_big_control(void) {
  long long x = sym_range("x", 0, 24); StaticMapSlot in[] = { NJ_INT("X", x), NJ_END }; if (!nj_boot(in)) sym_check(0, "boot"); int form = sym_choose("form", 5); sb0(); long long want = 0; int cnt = -1;
  if (form == 0) { int d = 1 + sym_choose("d", 6); sb("c=0;"); for (int i = 0; i < d; i++) { sb("i"); sbi(i); sb("=0; while i"); sbi(i); sb("<2: { i"); sbi(i); sb("=i"); sbi(i); sb("+1;"); } sb("c=c+1;"); int bl = sym_choose("brk", 2); long long per = 1; for (int i = d; i-- > 0;) { sb(bl ? "if c>=X: break; }" : "}"); } sb("out(c);"); if (!bl) want = 1LL << d; else { // reference: c grows at each innermost pass, every loop is left once c>=X
      long long c = 0; int ix[6] = {0}; int l = 0; (void)per; // simulate
      while (l >= 0) { if (ix[l] < 2) { ix[l]++; if (l < d - 1) { l++; ix[l] = 0; continue; } c++; } else { l--; if (l >= 0 && c >= x) ix[l] = 2; if (l < 0) break; continue; } if (c >= x) { ix[l] = 2; } } want = c; } cnt = 1; }
  else if (form == 1) { int k = 1 + sym_choose("k", 20); for (int i = 0; i < k; i++) { sb("if X=="); sbi(i); sb(": out("); sbi(100 + i); sb("); else "); } sb("out(-1);"); want = x < k ? 100 + x : -1; cnt = 1; }
  else if (form == 2) { int k = 50 + 50 * sym_choose("k", 5); sb("s=0; if X==3: {"); for (int i = 0; i < k; i++) sb("s=s+1;"); sb("} else s=-1; out(s);"); want = x == 3 ? k : -1; cnt = 1; }
  else if (form == 3) { int k = LAD[sym_choose("k", 12)]; sb("s=X; i=0; do { s=s+i; i=i+1; if i>"); sbi(k); sb(": break; } while true; out(s);"); want = x + (long long)k * (k + 1) / 2; cnt = 1; }
  else { int k = LAD[sym_choose("k", 20)]; sb("fun f(n) { i=0; while true: { j=0; while true: { if j==n: break; j=j+1; if i*1000+j>=100*1000: return -1; } i=i+1; if i=="); sbi(k < 20 ? k : 20); sb(": return i*100+j; } } out(f(X));"); want = (k < 20 ? k : 20) * 100 + x; cnt = 1; }
  bool ok = sb_run(); sym_check(ok && nj_nout == cnt && nj_isint(0, want), "deep and long control flow"); sym_cover("control"); nj_logout(); nj_end();
}
// C05: longer chains of one or two operators; only the operands up to the deciding one are evaluated.
void t_big_logic(void) {
  bool b[9]; int n = 2 + sym_choose("n", 6), mix = sym_choose("mix", 4); for (int i = 0; i < 9; i++) b[i] = i < n ? sym_bool("b") : false; static const char *const N[] = {"A","B","C","D","E","F","G","H","I"}; StaticMapSlot in[10]; for (int i = 0; i < n; i++) { in[i] = (StaticMapSlot) NJ_BOOL("", 0); in[i].name = N[i]; in[i].as_bool = b[i]; } in[n] = (StaticMapSlot) NJ_END; if (!nj_boot(in)) sym_check(0, "boot");
  sb0(); sb("fun t(i,v) { out(i); return v; } out("); int op[9]; for (int i = 0; i < n; i++) { if (i) { op[i] = mix == 0 ? 0 : mix == 1 ? 1 : mix == 2 ? i & 1 : (i >> 1) & 1; sb(op[i] ? " or " : " and "); } sb("t("); sbi(i); sb(","); sb(N[i]); sb(")"); } sb(");"); bool ok = sb_run(); sym_check(ok, "logic runs"); if (!ok) sym_end();
  int o = 0; bool res = false; int i = 0; while (i < n) { // or of and-groups
    bool g = true; int j = i; for (;; j++) { if (g) { sym_check(nj_isint(o++, j), "operands are evaluated left to right"); g = b[j]; } if (j + 1 >= n || op[j + 1]) break; } i = j + 1; if (g) { res = true; break; } }
  sym_check(nj_nout == o + 1 && nj_isbool(o, res), "evaluation stops at the deciding operand"); sym_cover("chain"); nj_logout(); nj_end();
}
// C08: many parameters, many arguments.
void t_big_args(void) {
  long long v = sym_i64("v"); sym_assume(v > -1000000 && v < 1000000); StaticMapSlot in[] = { NJ_INT("V", v), NJ_END }; if (!nj_boot(in)) sym_check(0, "boot"); int n = 5 + sym_choose("n", 10), k = sym_choose("given", 4), def = sym_choose("def", 3); int g = k == 0 ? n : k == 1 ? n - 1 : k == 2 ? n / 2 : n + 3; if (g > 15) sym_end();
  sb0(); sb("fun f("); for (int i = 0; i < n; i++) { if (i) sb(","); sb("p"); sbi(i); if (def == 1 || (def == 2 && i % 3 == 0)) { sb("=V+"); sbi(1000 + i); } } sb(") {"); for (int i = 0; i < n; i++) { sb("out(p"); sbi(i); sb(");"); } sb("} f("); for (int i = 0; i < g; i++) { if (i) sb(","); sb("V+"); sbi(i); } sb(");"); bool ok = sb_run(); sym_check(ok && nj_nout == n, "calls with many arguments"); if (!ok) sym_end();
  for (int i = 0; i < n; i++) if (i < g) sym_check(nj_isint(i, v + i), "arguments bind by position"); else if (def == 1 || (def == 2 && i % 3 == 0)) sym_check(nj_isint(i, v + 1000 + i), "missing arguments take their default"); else sym_check(nj_isnone(i), "missing arguments are none"); sym_cover("args"); nj_logout(); nj_end();
}
// C09: each of up to 7 nested functions may define x; the innermost reads it. Many variables in one scope.
void t_big_scope(void) {
  long long v = sym_i64("v"); sym_assume(v > -1000000 && v < 1000000); StaticMapSlot in[] = { NJ_INT("V", v), NJ_END }; if (!nj_boot(in)) sym_check(0, "boot"); int d = 1 + sym_choose("d", 7); int how[8]; sb0(); long long want = 0; bool def = false;
  for (int l = 0; l <= d; l++) { if (l) { sb("fun f"); sbi(l); sb("("); } how[l] = d <= 4 ? sym_choose("how", l ? 3 : 2) : l == d ? 0 : (sym_choose("h2", 2) ? 1 : 0); if (l) { if (how[l] == 2) sb("x"); sb(") {"); } if (how[l] == 1) { sb("x=V+"); sbi(l); sb(";"); } if (how[l]) { want = v + (how[l] == 2 ? 50 + l : l); def = true; } if (l == d) sb("out(x);"); }
  for (int l = d; l >= 1; l--) { sb("} f"); sbi(l); sb("("); if (how[l] == 2) { sb("V+"); sbi(50 + l); } sb(");"); } bool ok = sb_run(); sym_check(ok == def && nj_nout == def, "a name is visible in all nested functions"); if (def) { sym_check(nj_isint(0, want), "the innermost definition is seen"); sym_cover("seen"); } else sym_cover("undefined"); nj_logout(); nj_end();
}
void t_big_vars(void) { long long v = sym_i64("v"); sym_assume(v > -1000000 && v < 1000000); StaticMapSlot in[] = { NJ_INT("V", v), NJ_END }; if (!nj_boot(in)) sym_check(0, "boot"); int n = LAD[sym_choose("n", 18)], fn = sym_choose("fn", 2); sb0(); if (fn) sb("fun f() {"); for (int i = 0; i < n; i++) { sb("v"); sbi(i); sb("=V+"); sbi(i); sb(";"); } if (fn) sb("fun g() return v0; out(g());"); else sb("out(v0);"); for (int i = 0; i < n; i++) { sb("out(v"); sbi(i); sb(");"); } if (fn) sb("} f();"); bool ok = sb_run(); sym_check(ok && nj_nout == n + 1 && nj_isint(0, v), "many variables"); if (!ok) sym_end(); for (int i = 0; i < n; i++) sym_check(nj_isint(i + 1, v + i), "each variable keeps its own value"); sym_cover("vars"); sym_out(nj_nout); nj_end(); }
// C21: long names that differ in one character (or in length) are different names.
void t_big_names(void) { int n = LAD[sym_choose("n", 20)]; int p = bigpos(n)[sym_choose("pos", 5)]; if (!nj_boot(NULL)) sym_check(0, "boot"); char c = (char)sym_u8("c"); bool lng = sym_choose("longer", 2); if (!lng && n > 17 && p < n - 4) sym_end(); /* the hash in a symbolic byte far from the end is beyond the solver */ sym_assume(((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_')); for (int i = 0; i < n; i++) bs[i] = (char)('a' + i % 3); memcpy(bt, bs, n); int m = n; if (lng) bt[m++] = c; else bt[p] = c; bool eq = !lng && bs[p] == c;
  sb0(); sbn(bs, n); sb("=1; "); sbn(bt, m); sb("=2; out("); sbn(bs, n); sb(","); sbn(bt, m); sb(");"); bool ok = sb_run(); sym_check(ok && nj_nout == 2 && nj_isint(0, eq ? 2 : 1) && nj_isint(1, 2), "names are compared in full"); if (eq) sym_cover("same"); else sym_cover("different"); nj_logout(); nj_end(); }
// C10: unions of many alternatives, long list and map types.
void t_big_types(void) {
  static const char *const T[] = {"int","float","bool","String","List","Map","Buffer","None","Func"}, *const VV[] = {"1","2.5","true","'s'","[1]","{a:1}","buffer.new(1)","none","g"}; if (!nj_boot(NULL)) sym_check(0, "boot"); int form = sym_choose("form", 3); sb0(); sb("fun g() return 1; "); bool want = false;
  if (form == 0) { int n = 2 + sym_choose("n", 8), r = sym_choose("rot", 9), v = sym_choose("v", 9); sb("out(istypeof("); for (int i = 0; i < n; i++) { if (i) sb("|"); sb(T[(i + r) % 9]); if ((i + r) % 9 == v) want = true; } sb(","); sb(VV[v]); sb("));"); }
  else if (form == 1) { int n = 1 + sym_choose("n", 12), bad = sym_choose("bad", 13), m = sym_choose("m", 3); int k = n - 1 + m; sb("out(istypeof(["); for (int i = 0; i < n; i++) { if (i) sb(","); sb(i % 2 ? "int" : "String"); } sb("],["); for (int i = 0; i < k; i++) { if (i) sb(","); sb(i == bad ? "2.5" : i % 2 ? "7" : "'x'"); } sb("]));"); want = k >= n && !(bad < n); }
  else { int n = 1 + sym_choose("n", 10), bad = sym_choose("bad", 11), mode = sym_choose("mode", 2); sb("out(istypeof({"); for (int i = 0; i < n; i++) { if (i) sb(","); sb("k"); sbi(i); sb(i % 2 ? ":int" : ":String"); } sb("},{extra:1"); for (int i = n; i-- > 0;) { if (i == bad && mode) continue; sb(",k"); sbi(i); sb(":"); sb(i == bad ? "2.5" : i % 2 ? "7" : "'x'"); } sb("}));"); want = bad >= n; }
  bool ok = sb_run(); sym_check(ok && nj_nout == 1 && nj_isbool(0, want), "large types accept exactly their values"); if (want) sym_cover("yes"); else sym_cover("no"); nj_logout(); nj_end();
}
