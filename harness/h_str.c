// C13 strings, C14 UTF-8, C15 buffers.
#include "nj.h"
static StaticMapSlot xs[10];
static void ascii(char *s, int n) { sym_bytes(s, n, "s"); for (int i = 0; i < n; i++) sym_assume((unsigned char)s[i] < 128); s[n] = 0; }
// Concatenation, length and character selection of every pair of short ASCII strings (NUL included).
void t_str_cat(void) {
  char a[8], b[8]; ascii(a, 3); ascii(b, 3); int la = sym_choose("la", 4), lb = sym_choose("lb", 4); long long ix = sym_i64("ix"); StaticMapSlot in[] = { NJ_STR("S", a, la), NJ_STR("T", b, lb), NJ_INT("IX", ix), NJ_END }; memcpy(xs, in, sizeof in); if (!nj_boot(xs)) sym_check(0, "boot");
  bool ok = nj_run("c=string.cat(S,T); out(c,count(c),c[IX],count(S),string.cat(),string.cat(T),string.cat(S,'-',T,S)); out(S,T,count(keysof(c)));"); sym_check(ok && nj_nout == 10, "string operations don't fail"); if (!ok) sym_end();
  char e[16]; memcpy(e, a, la); memcpy(e + la, b, lb); sym_check(nj_isstr(0, e, la + lb), "concatenation"); sym_check(nj_isint(1, la + lb) && nj_isint(3, la), "count"); sym_check(nj_isstr(4, "", 0) && nj_isstr(5, b, lb), "concatenating zero or one strings"); e[la] = '-'; memcpy(e + la + 1, b, lb); memcpy(e + la + 1 + lb, a, la); sym_check(nj_isstr(6, e, la + lb + 1 + la), "concatenating many strings");
  if (ix < 0 || ix >= la + lb) { sym_check(nj_isnone(2), "selecting out of range gives none"); sym_cover("out"); } else { char x = ix < la ? a[ix] : b[ix - la]; sym_check(nj_isstr(2, &x, 1), "selecting gives the character"); sym_cover("in"); }
  sym_check(nj_isstr(7, a, la) && nj_isstr(8, b, lb), "the operands are unchanged"); sym_check(nj_isint(9, la + lb), "keysof"); nj_logout(); nj_end();
}
// Results longer than any internal buffer.
void t_str_long(void) {
  int n = 120 + sym_choose("n", 16), m = sym_choose("m", 3); static char a[400]; for (int i = 0; i < n; i++) a[i] = 'a' + i % 26; char c = (char)sym_u8("c"); sym_assume((unsigned char)c < 128); a[n / 2] = c; a[n - 1] = c; char d[2] = {(char)(c ^ 1), 0}; StaticMapSlot in[] = { NJ_STR("S", a, n), NJ_STR("D", d, m ? 1 : 0), NJ_END }; memcpy(xs, in, sizeof in); if (!nj_boot(xs)) sym_check(0, "boot");
  bool ok = nj_run("c=string.cat(S,D); out(count(c),c[count(c)-1],c[0],c==S); e=string.cat(c,c,c); out(count(e),e==string.cat(c,string.cat(c,c)));"); int l = n + (m ? 1 : 0); sym_check(ok && nj_nout == 6 && nj_isint(0, l) && nj_isstr(1, m ? d : &c, 1) && nj_isstr(2, "a", 1) && nj_isbool(3, !m) && nj_isint(4, 3 * l) && nj_isbool(5, 1), "long strings"); sym_cover("long"); nj_logout(); nj_end();
}
void t_str_slice(void) {
  char a[8]; ascii(a, 4); int la = sym_choose("la", 5); long long o = sym_i64("off"), l = sym_i64("len"); int no = sym_choose("no", 2), nl = sym_choose("nl", 2); StaticMapSlot in[] = { NJ_STR("S", a, la), NJ_INT("O", o), NJ_INT("L", l), NJ_END }; memcpy(xs, in, sizeof in); if (!nj_boot(xs)) sym_check(0, "boot"); sb0(); sb("c=string.slice(S,"); sb(no ? "none" : "O"); sb(nl ? ");" : ",L);"); sb("out(c);"); bool ok = sb_run();
  long long oo = no ? 0 : o, ll = nl ? la - oo : l; bool good = oo >= 0 && oo <= la && ll >= 0 && ll <= la - oo; sym_check(ok == good, "a slice is valid exactly when it's inside the string"); if (good) { char e[8]; for (int i = 0; i < 4; i++) { e[i] = 0; for (int j = 0; j < 4; j++) if (j == oo + i) e[i] = a[j]; } long long n = (long long)sym_conc((uint64_t)ll); sym_check(nj_isstr(0, e, (size_t)n), "slice contents"); sym_cover("ok"); } else { sym_check(nj_err.occurred && nj_nout == 0, "error"); sym_cover("bad"); } sym_out(ok); nj_end();
}
void t_str_trim(void) {
  char a[8]; ascii(a, 4); int la = sym_choose("la", 5); StaticMapSlot in[] = { NJ_STR("S", a, la), NJ_END }; memcpy(xs, in, sizeof in); if (!nj_boot(xs)) sym_check(0, "boot"); bool ok = nj_run("t=string.trim(S); out(t,string.trim(t)==t,S);"); sym_check(ok && nj_nout == 3, "trim never fails"); if (!ok) sym_end();
  int b = 0, e = la; while (b < e && a[b] == ' ') b++; while (e > b && a[e - 1] == ' ') e--; sym_check(nj_isstr(0, a + b, e - b), "trim removes exactly the leading and trailing spaces"); sym_check(nj_isbool(1, 1), "trim is idempotent"); sym_check(nj_isstr(2, a, la), "the operand is unchanged"); sym_cover("trim"); nj_logout(); nj_end();
}
// ---------------------------------------------------------------- C14
static int u8ref(const unsigned char *p, int n, uint32_t *cp) { // length of the sequence or 0
  if (n < 1) return 0; uint32_t c = p[0]; if (c < 0x80) { *cp = c; return 1; } if (c < 0xC2) return 0;
  if (c < 0xE0) { if (n < 2 || (p[1] & 0xC0) != 0x80) return 0; *cp = (c & 0x1F) << 6 | (p[1] & 0x3F); return 2; }
  if (c < 0xF0) { if (n < 3 || (p[1] & 0xC0) != 0x80 || (p[2] & 0xC0) != 0x80) return 0; *cp = (c & 0xF) << 12 | (uint32_t)(p[1] & 0x3F) << 6 | (p[2] & 0x3F); return *cp < 0x800 || (*cp >= 0xD800 && *cp < 0xE000) ? 0 : 3; }
  if (c < 0xF5) { if (n < 4 || (p[1] & 0xC0) != 0x80 || (p[2] & 0xC0) != 0x80 || (p[3] & 0xC0) != 0x80) return 0; *cp = (c & 7) << 18 | (uint32_t)(p[1] & 0x3F) << 12 | (uint32_t)(p[2] & 0x3F) << 6 | (p[3] & 0x3F); return *cp < 0x10000 || *cp > 0x10FFFF ? 0 : 4; }
  return 0;
}
// Every byte string up to the bound: accepted as text exactly when it's well formed UTF-8; count and selection work by characters.
void t_utf8_text(void) {
  int n = (int)sym_param("n", 4); static char a[8]; sym_bytes(a, n, "s"); a[n] = 0; StaticMapSlot in[] = { NJ_STR("S", a, n), NJ_END }; memcpy(xs, in, sizeof in); if (!nj_boot(xs)) sym_check(0, "boot"); 
  bool ok = nj_run("s=S; n=count(s); out(n); i=0; while i<n: { out(s[i]); i=i+1; } out(s[n],string.cat(s,s)==s, count(string.cat(s,s)));");
  int st[8], ln[8], c = 0, p = 0; bool good = true; while (p < n) { uint32_t cp; int k = u8ref((unsigned char*)a + p, n - p, &cp); if (!k) { good = false; break; } st[c] = p; ln[c++] = k; p += k; }
  // Surrogates may be accepted or refused.
  bool sur = false; for (int i = 0; i + 2 < n; i++) if ((unsigned char)a[i] == 0xED && (unsigned char)a[i + 1] >= 0xA0) sur = true; if (sur) sym_end();
  sym_check(ok == good, "text is accepted exactly when it's well formed UTF-8"); if (good) { sym_check(nj_nout == c + 4 && nj_isint(0, c), "count is the number of characters"); for (int i = 0; i < c; i++) sym_check(nj_isstr(1 + i, a + st[i], ln[i]), "selection gives whole characters"); sym_check(nj_isnone(c + 1) && nj_isbool(c + 2, n == 0) && nj_isint(c + 3, 2 * c), "concatenation of characters"); sym_cover("valid"); } else { sym_check(nj_err.occurred, "error"); sym_cover("invalid"); } nj_logout(); nj_end();
}
// chr and ord are inverses on all code points; chr refuses everything else.
void t_utf8_chr(void) {
  long long v = sym_i64("v"); StaticMapSlot in[] = { NJ_INT("V", v), NJ_END }; memcpy(xs, in, sizeof in); if (!nj_boot(xs)) sym_check(0, "boot"); bool ok = nj_run("s=string.chr(V); out(s,count(s),string.ord(s),string.ord(string.cat(s,'x')));"); bool good = v >= 0 && v <= 0x10FFFF; if (v >= 0xD800 && v < 0xE000) { sym_end(); }
  sym_check(ok == good, "chr accepts exactly the code points"); if (ok) { uint32_t cp; sym_check(nj_nout == 4 && nj_isint(1, 1) && nj_isint(2, v) && nj_isint(3, v), "ord(chr(x)) is x"); int k = u8ref((unsigned char*)nj_out[0].s, (int)nj_out[0].n, &cp); sym_check(k == (int)nj_out[0].n && cp == (uint64_t)v, "chr encodes in UTF-8"); sym_cover("ok"); } else { sym_check(nj_err.occurred && nj_nout == 0, "error"); sym_cover("bad"); } sym_out(ok); Error_Free(&nj_err); Error_Init(&nj_err); sym_check(!nj_run("string.ord('');"), "an empty string has no code point"); nj_end();
}
// ---------------------------------------------------------------- C15
void t_buf_new(void) { long long n = sym_i64("n"); sym_assume(n < 17 || n > (1LL << 30)); StaticMapSlot in[] = { NJ_INT("N", n), NJ_END }; memcpy(xs, in, sizeof in); if (!nj_boot(xs)) sym_check(0, "boot"); bool ok = nj_run("b=buffer.new(N); out(count(b)); i=0; while i<N: { out(b[i]); i=i+1; } out(b[N],b[-1]);"); bool good = n >= 0 && n < 17;
  sym_check(ok == good, "buffers of impossible sizes are refused"); if (good) { sym_check(nj_nout == n + 3 && nj_isint(0, n), "buffer size"); for (int i = 1; i < nj_nout - 2; i++) sym_check(nj_isint(i, 0), "a new buffer holds zeros"); sym_check(nj_isnone(nj_nout - 1) && nj_isnone(nj_nout - 2), "out of range reads"); sym_cover("ok"); } else { sym_check(nj_err.occurred && nj_nout == 0, "error"); sym_cover("bad"); } sym_out(ok); nj_end(); }
// Writes and slices at arbitrary offsets, checked against the byte array they view.
void t_buf_ops(void) {
  long long o1 = sym_i64("o"), l1 = sym_i64("l"), o2 = sym_i64("o"), l2 = sym_i64("l"), wi = sym_i64("wi"), wv = sym_i64("wv"), ri = sym_i64("ri"); int where = sym_choose("where", 3), rw = sym_choose("rd", 3); StaticMapSlot in[] = { NJ_INT("O", o1), NJ_INT("L", l1), NJ_INT("P", o2), NJ_INT("M", l2), NJ_INT("WI", wi), NJ_INT("WV", wv), NJ_INT("RI", ri), NJ_END }; memcpy(xs, in, sizeof in); if (!nj_boot(xs)) sym_check(0, "boot"); static const char *const W[] = {"b","s","t"};
  sb0(); sb("b=buffer.new(5); i=0; while i<5: { b[i]=10+i; i=i+1; } s=buffer.sliceUp(b,O,L); out(count(s)); t=buffer.sliceUp(s,P,M); out(count(t)); "); sb(W[where]); sb("[WI]=WV; out(1); out("); sb(W[rw]); sb("[RI]); i=0; while i<5: { out(b[i]); i=i+1; }"); bool ok = sb_run();
  bool g1 = o1 >= 0 && o1 < 5 && l1 >= 0 && l1 <= 5 - o1, g1b = (o1 >= 0 && o1 == 5 && l1 == 0); if (g1b) sym_end(); // an empty slice at the end may be accepted or refused
  if (!g1) { sym_check(!ok && nj_nout == 0 && nj_err.occurred, "a slice outside of the buffer is refused"); sym_cover("bad slice"); nj_end(); return; }
  sym_check(nj_nout >= 1 && nj_isint(0, l1), "slice length"); if (o2 == l1 && l2 == 0) sym_end(); bool g2 = o2 >= 0 && o2 < l1 && l2 >= 0 && l2 <= l1 - o2; if (!g2) { sym_check(!ok && nj_nout == 1 && nj_err.occurred, "a slice outside of the parent slice is refused"); sym_cover("bad subslice"); nj_end(); return; }
  sym_check(nj_nout >= 2 && nj_isint(1, l2), "subslice length"); long long base[3] = {0, o1, o1 + o2}, len[3] = {5, l1, l2}; bool g3 = wi >= 0 && wi < len[where] && wv >= 0 && wv <= 255; if (!g3) { sym_check(!ok && nj_nout == 2 && nj_err.occurred, "a write outside of the buffer or of the byte range is refused"); sym_cover("bad write"); nj_end(); return; }
  sym_check(ok && nj_nout == 9, "valid operations succeed"); if (!ok) sym_end(); long long m[5]; for (int i = 0; i < 5; i++) { m[i] = 10 + i; if (i == base[where] + wi) m[i] = wv; sym_check(nj_isint(4 + i, m[i]), "slices share the bytes of their buffer"); }
  if (ri < 0 || ri >= len[rw]) { sym_check(nj_isnone(3), "reads outside of the view give none"); sym_cover("read out"); } else { long long e = 0; for (int i = 0; i < 5; i++) if (i == base[rw] + ri) e = m[i]; sym_check(nj_isint(3, e), "reads see the bytes"); sym_cover("read"); } sym_out(ok); nj_end();
}
// Conversions between buffers and strings.
void t_buf_conv(void) { int n = 4; static char a[8]; int la = sym_choose("la", 4); sym_bytes(a, 3, "b"); (void)n; static unsigned char z[8]; long long v[3]; for (int i = 0; i < 3; i++) v[i] = (unsigned char)a[i]; StaticMapSlot in[] = { NJ_INT("N", la), NJ_INT("V0", v[0]), NJ_INT("V1", v[1]), NJ_INT("V2", v[2]), NJ_END }; memcpy(xs, in, sizeof in); (void)z; if (!nj_boot(xs)) sym_check(0, "boot");
  bool ok = nj_run("v=[V0,V1,V2]; b=buffer.new(N); i=0; while i<N: { b[i]=v[i]; i=i+1; } s,e=buffer.toString(b); out(s,e); if s != none: { c=buffer.fromString(s); out(count(c)); i=0; while i<N: { out(c[i]); i=i+1; } if N>0: { c[0]=(v[0]+1)%256; out(b[0]); s2,e2=buffer.toString(b); out(s2==s); } }"); sym_check(ok, "conversions don't abort"); if (!ok) sym_end();
  int p = 0; bool good = true; bool sur = la == 3 && (unsigned char)a[0] == 0xED && (unsigned char)a[1] >= 0xA0; if (sur) sym_end(); while (p < la) { uint32_t cp; int k = u8ref((unsigned char*)a + p, la - p, &cp); if (!k) { good = false; break; } p += k; }
  if (good) { sym_check(nj_nout == 3 + la + (la ? 2 : 0) && nj_isstr(0, a, la) && nj_isnone(1) && nj_isint(2, la), "a buffer of UTF-8 becomes a string"); for (int i = 0; i < la; i++) sym_check(nj_isint(3 + i, v[i]), "round trip"); if (la) sym_check(nj_isint(3 + la, v[0]) && nj_isbool(4 + la, 1), "conversions copy"); sym_cover("valid"); } else { sym_check(nj_nout == 2 && nj_isnone(0) && nj_out[1].tag == V_STR, "a buffer that isn't UTF-8 is refused with a message"); sym_cover("invalid"); } nj_logout(); nj_end(); }
// Text is decided by its own bytes, whatever follows them in memory: truncated characters at the end are refused.
void t_utf8_tail(void) {
  int n = (int)sym_param("n", 2), tot = n + 3, form = sym_choose("form", 2); static char a[12]; sym_bytes(a, tot, "s"); a[tot] = 0; if (form) for (int i = n; i < tot; i++) sym_assume((a[i] & 0xC0) == 0x80); int c = 0, p = 0; bool good = true; for (int i = 0; i + 1 < tot; i++) sym_assume(!((unsigned char)a[i] == 0xED && (unsigned char)a[i + 1] >= 0xA0));
  while (p < n) { uint32_t cp; int k = u8ref((unsigned char*)a + p, n - p, &cp); if (!k) { good = false; break; } c++; p += k; }
  if (form == 0) { StaticMapSlot in[] = { NJ_STR("S", a, n), NJ_END }; memcpy(xs, in, sizeof in); if (!nj_boot(xs)) sym_check(0, "boot"); bool ok = nj_run("out(count(S), S);"); sym_check(ok == good, "text is accepted exactly when it's well formed UTF-8"); if (ok) sym_check(nj_nout == 2 && nj_isint(0, c) && nj_isstr(1, a, n), "its length"); sym_cover(ok ? "text" : "not text"); nj_end(); return; }
  static StaticMapSlot v[12]; static char nm[10][4]; for (int i = 0; i < tot; i++) { nm[i][0] = 'V'; nm[i][1] = (char)('0' + i); v[i] = (StaticMapSlot) NJ_INT(nm[i], (unsigned char)a[i]); } v[tot] = (StaticMapSlot) NJ_END; if (!nj_boot(v)) sym_check(0, "boot"); sb0(); sb("b=buffer.new("); sbi(tot); sb(");"); for (int i = 0; i < tot; i++) { sb("b["); sbi(i); sb("]=V"); sbi(i); sb(";"); } sb("s,e=buffer.toString(buffer.sliceUp(b,0,"); sbi(n); sb(")); out(s); if s!=none: out(count(s));");
  bool ok = sb_run(); sym_check(ok, "a conversion never aborts"); if (good) { sym_check(nj_nout == 2 && nj_isstr(0, a, n) && nj_isint(1, c), "well formed UTF-8 is converted"); sym_cover("slice text"); } else { sym_check(nj_nout == 1 && nj_isnone(0), "a slice that isn't well formed UTF-8 gives none"); sym_cover("slice not text"); } nj_end();
}
// ---------------------------------------------------------------- sizes near what an int can count: objects that claim to hold that much
static long long huge_[3]; static int hugen_;
static int claim(Runtime *rt, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *e) { (void)rt; (void)argc; (void)rets; (void)e; char *o = (char *)argv[0]; size_t z = (size_t)argv[0]->type->size; long long v = huge_[hugen_++]; int done = 0; for (size_t i = sizeof(Object); i + 4 <= z; i += 4) { int x; memcpy(&x, o + i, 4); if (x != 91) continue; if (v > 0xffffffffLL || argv[0]->type == Object_GetBufferType()) { memcpy(o + i, &v, 8); i += 4; } else memcpy(o + i, &v, 4); done++; } sym_check(done == 1, "harness: the size of the object"); return 0; }
void t_cat_huge(void) { // more text than a string can hold is refused
  static const long long L[] = {1 << 20, 1 << 28, 1 << 29, 1 << 30, 2147483647LL - 200, 2147483646LL}; int a = sym_choose("a", 6), b = sym_choose("b", 7), n = 2 + sym_choose("n", 12), mix = sym_choose("mix", 3); huge_[0] = L[a]; huge_[1] = b == 6 ? (long long)sym_range("size", 0, 2147483646) : L[b]; hugen_ = 0; StaticMapSlot sl[] = { NJ_FUN("claim", claim, 1), NJ_END }; if (mix == 2 && n != 2) sym_end();
  char t[96]; int p = 0; t[p++] = (char)0xc3; t[p++] = (char)0xa9; while (p < 91) { t[p] = (char)('a' + p % 26); p++; } t[p] = 0; long long total = 0; sb0(); sb("s='"); sb(t); sb("'; u='"); sb(t); sb("'; claim(s); claim(u); out(1); t=string.cat("); for (int i = 0; i < n; i++) { int w = mix == 0 ? i & 1 : mix == 1 ? i == n - 1 : 0; if (i) sb(","); if (mix == 2 && i) { sb("'x'"); total++; } else { sb(w ? "u" : "s"); total += huge_[w]; } } sb("); out(2);"); if (total < 2147483647LL) sym_end();
  if (!nj_boot(sl)) return; bool ok = sb_run(); sym_check(!ok && nj_err.occurred && nj_err.message && nj_err.message[0] && nj_nout == 1, "more than a string can hold is refused with an error"); sym_cover("refused"); nj_end(); }
void t_buftext_huge(void) { // a buffer that is more than a string can hold isn't made one
  static const long long L[] = {2147483647LL, 2147483648LL, 3000000000LL, 4294967295LL, 4294967296LL, 4294967300LL, 4294967387LL, 1LL << 33, 1LL << 40}; int a = sym_choose("a", 10); huge_[0] = a == 9 ? (long long)sym_range("size", 2147483647LL, 1LL << 46) : L[a]; hugen_ = 0; StaticMapSlot sl[] = { NJ_FUN("claim", claim, 1), NJ_END }; if (!nj_boot(sl)) return; bool ok = nj_run("b = buffer.new(91); claim(b); out(1); t, e = buffer.toString(b); out(t, count(t));"); sym_check(nj_nout == 1 ? !ok && nj_err.occurred && nj_err.message && nj_err.message[0] : ok && nj_isnone(1), "more than a string can hold is refused"); sym_cover("refused"); nj_end(); }
