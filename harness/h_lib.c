// C28 argument checking, C29 numbers and text, C30 files, C33 mathematics and random numbers, C34 the start library, C38 sockets.
#include "nj.h"
#include <math.h>
#include <errno.h>
// ---------------------------------------------------------------- C28
// The signature of every native built-in: i int, f float, s string, b bool, B buffer, F file, D directory, o anything; ?x x or none; * the rest are like the last
static const struct { const char *fn, *sig; const char *good[4]; } F[] = {
  {"math.floor", "f", {"1.5"}}, {"math.ceil", "f", {"1.5"}}, {"math.cos", "f", {"1.5"}}, {"math.sin", "f", {"1.5"}}, {"math.tan", "f", {"1.5"}}, {"math.acos", "f", {"0.5"}}, {"math.asin", "f", {"0.5"}}, {"math.atan", "f", {"1.5"}}, {"math.atan2", "ff", {"1.5", "2.5"}}, {"math.exp", "f", {"1.5"}}, {"math.log", "f", {"1.5"}}, {"math.log10", "f", {"1.5"}}, {"math.pow", "ff", {"1.5", "2.5"}}, {"math.sqrt", "f", {"1.5"}},
  {"random.seed", "i", {"7"}}, {"random.generate", "?i?i", {"1", "5"}},
  {"buffer.new", "i", {"3"}}, {"buffer.sliceUp", "Bii", {"BUF", "0", "1"}}, {"buffer.toString", "B", {"BUF"}}, {"buffer.fromString", "s", {"'ab'"}},
  {"string.ord", "s", {"'a'"}}, {"string.chr", "i", {"65"}}, {"string.cat", "s*", {"'a'", "'b'"}}, {"string.trim", "s", {"' a'"}}, {"string.slice", "s?i?i", {"'abc'", "0", "1"}}, {"string.toInt", "s", {"'12'"}},
  {"files.openFile", "si", {"'in.txt'", "0"}}, {"files.openDir", "s", {"'.'"}}, {"files.nextDirItem", "D", {"DIR"}}, {"files.read", "FB?i", {"FIL", "BUF", "1"}}, {"files.write", "FB?i", {"FIL", "BUF", "1"}},
  {"net.socket", "iii?b", {"2", "1", "0", "true"}}, {"net.bind", "iii?s", {"5", "2", "80", "'1.2.3.4'"}}, {"net.listen", "ii", {"5", "3"}}, {"net.accept", "i", {"5"}}, {"net.recv", "iB?i", {"5", "BUF", "1"}}, {"net.send", "iB?i", {"5", "BUF", "1"}}, {"net.close", "i", {"5"}},
  {"import", "s", {"'m.noja'"}}, {"type", "o", {"1"}}, {"typename", "o", {"1"}}, {"keysof", "o", {"1"}}, {"print", "o*", {"1", "'a'"}}, {"istypeof", "Ao", {"int", "1"}}, {"count", "C", {"'abc'"}}, {"assert", "b*", {"true", "true"}}, {"getCurrentWorkingDirectory", "", {0}}, {"getCurrentScriptDirectory", "", {0}}, {"getCurrentScriptLocation", "", {0}} };
static const struct { const char *e; char k; } ARG[] = { {"none", 'n'}, {"3", 'i'}, {"1.5", 'f'}, {"true", 'b'}, {"'abc'", 's'}, {"[1]", 'l'}, {"{a: 1}", 'm'}, {"BUF", 'B'}, {"FIL", 'F'}, {"DIR", 'D'}, {"int", 't'}, {"type(none)", 't'}, {"print", 'c'}, {"fn", 'c'}, {"?int", 'q'}, {"(int | float)", 'q'} };
static bool fits(char w, bool opt, char k) { if (opt && k == 'n') return true; if (w == 'o') return true; if (w == 'A') return k != 'B' || true; if (w == 'C') return k == 's' || k == 'l' || k == 'm' || k == 'B'; return w == k; }
static int nsig(const char *s, char *w, bool *opt, bool *var) { int n = 0; *var = false; for (; *s; s++) { if (*s == '*') { *var = true; continue; } opt[n] = false; if (*s == '?') { opt[n] = true; s++; } w[n++] = *s; } return n; }
static long sysdummy(int c, long a, long b, long d, const void *in, void *out, size_t n) { (void)a; (void)b; (void)d; (void)in; (void)out; (void)n; return c == SYS_socket_ || c == SYS_accept_ ? 1000 : c == SYS_recv_ || c == SYS_send_ ? (long)n : 0; }
#define PRE "BUF = buffer.new(4); FIL = files.openFile('in.txt', files.READ); DIR = files.openDir('.'); fun fn() 1; "
static bool bootp(StaticMapSlot *x) { RuntimeConfig c = Runtime_GetDefaultConfigs(); static char *cp; static size_t cn; c.heap = 1 << 20; c.stdout = open_memstream(&cp, &cn); nsym_mkfile("in.txt", "xyz", 3); nsym_mkfile("m.noja", "a = 1;", 6); nsym_sys = sysdummy; return nj_boot_cfg(c, x); }
void t_args_kinds(void) { // each built-in with its arguments, one of them of any other kind, missing, or one more
  int lo = (int)sym_param("lo", 0), hi = (int)sym_param("hi", 100), nf = (int)(sizeof F / sizeof F[0]); if (hi > nf) hi = nf; if (!bootp(NULL)) return; int f = lo + sym_choose("function", hi - lo); char w[8]; bool opt[8], var; int n = nsig(F[f].sig, w, opt, &var); int pass = var ? 3 : n; int given = sym_choose("given", pass + 2); int bad = given ? sym_choose("bad", given + 1) - 1 : -1, k = bad >= 0 ? sym_choose("kind", 16) : -1;
  if (!strcmp(F[f].fn, "istypeof") && bad == 0) sym_end(); // what is a type is C10
  sb0(); sb(PRE); sb("out('start'); "); sb(F[f].fn); sbc('('); bool ok = true; for (int i = 0; i < given; i++) { if (i) sb(", "); int s = i < n ? i : n - 1; if (i == bad) { sb(ARG[k].e); if (i < n || var) ok = ok && fits(w[s], opt[s], ARG[k].k); } else sb(n == 0 || (i >= n && !var) ? "1" : F[f].good[s]); } for (int i = given; i < n; i++) if (!var) ok = ok && (opt[i] || w[i] == 'o' || w[i] == 'A'); if (!strcmp(F[f].fn, "istypeof") && given == 0) sym_end();
  bool value = bad >= 0 && ok && k >= 0 && (bad < n || var); // a fitting kind with a value that may be refused
  sb("); out('end');"); bool r = sb_run(); if (ok) { if (!value) sym_check(r && nj_nout == 2, "the right arguments are accepted, more are ignored"); else sym_check(r ? nj_nout == 2 : nj_err.occurred && nj_nout == 1, "a value that does not fit is an error"); sym_cover("accepted"); } else { sym_check(!r && nj_err.occurred && nj_err.length > 0, "an argument of the wrong kind, or none where one is needed, is refused"); sym_check(nj_nout == 1, "and the program ends there"); sym_cover("refused"); }
  nsym_sys = NULL; nj_end(); }
// ---------------------------------------------------------------- C29
static const char *TOI[] = { "", "922337203685477580", "9223372036854775", "000000000000000000000000", "1844674407370955161", "99999999999999999999" };
void t_to_int(void) { // digits and nothing else, with the value they denote, or none and a reason
  int n = (int)sym_param("n", 3), pre = (int)sym_param("pre", 0); static char s[64]; strcpy(s, TOI[pre]); int p = (int)strlen(s); for (int i = 0; i < n; i++) { s[p + i] = (char)sym_u8("c"); if ((unsigned char)s[p + i] >= 0x80) sym_end(); } n += p; s[n] = 0; StaticMapSlot sl[] = { NJ_STR("S", s, n), NJ_END }; bool dig = n > 0, ovf = false; unsigned long long v = 0; for (int i = 0; i < n; i++) if (s[i] < '0' || s[i] > '9') dig = false; if (dig) for (int i = 0; i < n; i++) { unsigned d = (unsigned)(s[i] - '0'); if (v > 922337203685477580ULL || (v == 922337203685477580ULL && d > 7)) { ovf = true; break; } v = v * 10 + d; }
  if (!nj_boot(sl)) return; bool ok = nj_run("v, e = string.toInt(S); out(v, e, count(S));"); sym_check(ok && nj_nout == 3, "never ends the program"); if (dig && !ovf) { sym_check(nj_isint(0, (long long)v), "digits give their value"); sym_check(nj_isnone(1), "without a reason"); sym_cover("value"); } else { sym_check(nj_isnone(0) && nj_out[1].tag == V_STR && nj_out[1].n > 0, "anything else gives none and a reason"); sym_cover(dig ? "overflow" : "not a number"); } nj_end(); }
static bool istext(int k, const char *t) { return nj_isstr(k, t, strlen(t)); }
void t_int_text(void) { // toString of an integer is its decimal text, toInt gives it back
  static const long long C[] = { 0, 9, 10, 99, 100, 1000000, 9223372036854775807LL, -9223372036854775807LL - 1, -1, -10, 123456789012345678LL, 4294967296LL }; int k = sym_choose("k", 13); if (k == 12) { long long v = sym_range("v", -1200, 1200); StaticMapSlot sl[] = { NJ_INT("V", v), NJ_END }; if (!nj_boot(sl)) return; bool ok = nj_run("s = toString(V); out(count(s)); r = V; if V < 0: r = -V; t = s; if V < 0: t = string.slice(s, 1); out(string.toInt(t) == r, s[0] == '-');"); long long a = v < 0 ? -v : v; int d = 1 + (a > 9) + (a > 99) + (a > 999) + (v < 0); sym_check(ok && nj_isint(0, d) && nj_isbool(1, true) && nj_isbool(2, v < 0), "the text of an integer reads back as that integer"); sym_cover("symbolic"); nj_end(); return; }
  StaticMapSlot sl[] = { NJ_INT("V", C[k]), NJ_END }; if (!nj_boot(sl)) return; bool ok = nj_run("out(toString(V));"); int m = nj_sn; sb0(); sbi(C[k]); sym_check(ok && istext(0, nj_src), "exactly its decimal digits"); (void)m; sym_cover("fixed"); nj_end(); }
void t_digit_text(void) { // integerFromDigit accepts exactly the ten digits
  int n = 1 + sym_choose("n", 2); char s[3]; for (int i = 0; i < n; i++) { s[i] = (char)sym_u8("c"); if ((unsigned char)s[i] >= 0x80) sym_end(); } s[n] = 0; StaticMapSlot sl[] = { NJ_STR("S", s, n), NJ_END }; if (!nj_boot(sl)) return; bool ok = nj_run("out(integerFromDigit(S));"); bool d = s[0] >= '0' && s[0] <= '9'; if (n == 1) { sym_check(ok == d, "digits and nothing else"); if (d) sym_check(nj_isint(0, s[0] - '0'), "with their value"); sym_cover(d ? "digit" : "other"); } else sym_check(d || !ok, "text that starts with no digit is refused"); nj_end(); }
void t_float_text(void) { // toString of a float has its sign, integer part and at most two decimals, cut off
  static const double C[] = { 0.0, 0.5, 1.25, -1.25, 2.0, 1234567.75, -0.5, 99.0, 0.125, 0.0625, -3.5, 1e15, 0.25, 7.75, 1e-9, -1e-9, 100.03125 }; static const char *W[] = { "0.0", "0.5", "1.25", "-1.25", "2.0", "1234567.75", "-0.5", "99.0", "0.12", "0.06", "-3.5", "1000000000000000.0", "0.25", "7.75", "0.0", "-0.0", "100.03" }; int k = sym_choose("k", 17); StaticMapSlot sl[] = { NJ_FLT("V", C[k]), NJ_END }; if (!nj_boot(sl)) return; bool ok = nj_run("out(toString(V));"); sym_check(ok && istext(0, W[k]), "the text of a float"); sym_cover("float"); nj_end(); }
void t_float_text_bad(void) { // floats without a decimal text are refused
  int k = sym_choose("k", 5); double C[] = { 1e300, -1e300, 1.0 / 0.0, -1.0 / 0.0, __builtin_nan("") }; StaticMapSlot sl[] = { NJ_FLT("V", C[k]), NJ_END }; if (!nj_boot(sl)) return; bool ok = nj_run("out(toString(V));"); sym_check(!ok && nj_err.occurred && nj_nout == 0, "an error, not a wrong text"); sym_cover("refused"); nj_end(); }
static char tx[512]; static int txn; static void t_(const char *s) { int n = (int)strlen(s); memcpy(tx + txn, s, n); txn += n; tx[txn] = 0; }
static void gv(int d) { switch (sym_choose("v", d ? 10 : 7)) { case 0: sb("12"); t_("12"); break; case 1: sb("none"); t_("none"); break; case 2: sb("'a b'"); t_("a b"); break; case 3: sb("-7"); t_("-7"); break; case 4: sb("2.5"); t_("2.5"); break; case 5: sb("print"); t_("NFunc"); break; case 6: sb("toString"); t_("Func"); break;
  case 7: { int n = sym_choose("n", 3); sbc('['); t_("["); for (int i = 0; i < n; i++) { if (i) { sb(","); t_(", "); } gv(i ? 0 : d - 1); } sbc(']'); t_("]"); break; }
  case 8: { int n = sym_choose("n", 3); sbc('{'); t_("{"); for (int i = 0; i < n; i++) { if (i) { sb(","); t_(", "); } sb(i ? "5: " : "k: "); t_(i ? "5: " : "k: "); gv(i ? 0 : d - 1); } sbc('}'); t_("}"); break; }
  default: sb("{ v: 3, fun toString(this) return string.cat('<', toString(this.v), '>'); }"); t_("<3>"); } }
void t_value_text(void) { // toString of nested collections, with custom methods
  int d = (int)sym_param("d", 2); if (!nj_boot(NULL)) return; sb0(); txn = 0; sb("out(toString("); gv(d); sb("));"); bool ok = sb_run(); sym_check(ok && nj_nout == 1 && nj_out[0].n == (size_t)txn && (txn > 95 || istext(0, tx)), "the text of a value follows its structure"); sym_cover("text"); nj_end(); }
// ---------------------------------------------------------------- C30
void t_file_write(void) { // what is written is in the file when the program ends, in order, after what was there if appending
  int mode = 1 + sym_choose("mode", 3), there = sym_choose("there", 2), ops = (int)sym_param("ops", 2), gc = sym_choose("gc", 2); static unsigned char want[64]; int wn = 0; unsigned char b[6]; sym_bytes(b, 6, "b"); if (there) { nsym_mkfile("f", "old!", 4); if (mode >= 2) { memcpy(want, "old!", 4); wn = 4; } } StaticMapSlot sl[] = { NJ_STR("DUMMY", "", 0), NJ_INT("B0", b[0]), NJ_INT("B1", b[1]), NJ_INT("B2", b[2]), NJ_FUN("gc", nj_bin_gc, 0), NJ_END }; if (!nj_boot(sl)) return;
  sb0(); sb("f = files.openFile('f', "); sbi(mode); sb("); b = buffer.new(3); b[0] = B0; b[1] = B1; b[2] = B2; "); int calls = 0; for (int i = 0; i < ops; i++) { int c = sym_choose("count", 6); sb("out(files.write(f, b"); int n = 3; switch (c) { case 0: break; case 1: sb(", none"); break; case 2: sb(", 0"); n = 0; break; case 3: sb(", 2"); n = 2; break; case 4: sb(", 100"); break; default: sb(", 9223372036854775807"); } sb("));"); for (int j = 0; j < n; j++) want[wn++] = b[j]; nj_out[0].i = 0; (void)calls; if (gc) sb(" gc();"); } if (gc) sb("f = none; gc(); gc();"); bool ok = sb_run(); sym_check(ok && nj_nout == ops, "every write succeeds"); int tot = 0; for (int i = 0; i < ops; i++) { sym_check(nj_out[i].tag == V_INT, "and tells how much was written"); tot += (int)nj_out[i].i; } sym_check(tot == wn - (there && mode >= 2 ? 4 : 0), "as much as was asked for, at most the buffer"); if (!gc) nj_end(); unsigned char got[64]; size_t gn = nsym_readfile("f", got, 64); sym_check(gn == (size_t)wn && !memcmp(got, want, wn), "the file has exactly those bytes, even before the program ends if the file is no longer reachable"); sym_cover("written"); if (gc) nj_end(); }
void t_file_read(void) { // reading gives the bytes of the file in order, each once
  int len = sym_choose("len", 6), bs = 1 + sym_choose("buffer", 4), cnt = sym_choose("count", 4); unsigned char d[6]; sym_bytes(d, 6, "d"); nsym_mkfile("f", d, len); StaticMapSlot sl[] = { NJ_END }; if (!nj_boot(sl)) return; sb0(); sb("f = files.openFile('f', files.READ); b = buffer.new("); sbi(bs); sb("); i = 0; while i < 7: { "); sb("b = buffer.new("); sbi(bs); sb("); n = files.read(f, b"); int c = bs; if (cnt) { sb(", "); c = cnt == 1 ? 0 : cnt == 2 ? 1 : 9; sbi(c); } if (c > bs) c = bs; sb("); out(n); j = 0; while j < "); sbi(bs); sb(": { out(b[j]); j = j + 1; } i = i + 1; }"); bool ok = sb_run(); sym_check(ok && nj_nout == 7 * (1 + bs), "every read succeeds"); int p = 0; for (int i = 0; i < 7; i++) { int o = i * (1 + bs), n = len - p < c ? len - p : c; sym_check(nj_isint(o, n), "a read gives as many bytes as asked for, fit and remain"); for (int j = 0; j < bs; j++) sym_check(nj_isint(o + 1 + j, j < n ? d[p + j] : 0), "the next bytes of the file, and leaves the rest of the buffer alone"); p += n; } sym_cover("read"); nj_end(); }
void t_file_modes(void) { // opening: exactly the documented modes, failures are values
  long long m = sym_i64("m"); int w = sym_choose("what", 4); static const char *P[] = { "f", "absent", "nodir/x", "sub/g" }; nsym_mkfile("f", "abc", 3); nsym_mkfile("sub/g", "de", 2); StaticMapSlot sl[] = { NJ_INT("M", m), NJ_STR("P", P[w], strlen(P[w])), NJ_END }; if (!nj_boot(sl)) return; bool ok = nj_run("f, e = files.openFile(P, M); out(type(f) == File, e); b = buffer.new(3); if f != none: { out(files.read(f, b)); out(files.write(f, b, 1)); }"); if (m < 0 || m > 3) { sym_check(!ok && nj_nout == 0, "only the documented modes"); sym_cover("mode"); return; } sym_check(ok, "opening never ends the program"); bool can = m == 0 ? w == 0 || w == 3 : w != 2; sym_check(nj_isbool(0, can), "a file, if it can be opened"); if (!can) { sym_check(nj_out[1].tag == V_STR && nj_out[1].n > 0 && nj_nout == 2, "or none and a reason"); sym_cover("failed"); nj_end(); return; } sym_check(nj_isnone(1) && nj_isint(2, m == 0 ? (w == 0 ? 3 : 2) : 0) && nj_isint(3, m == 0 ? 0 : 1), "that can be read or written as its mode says"); nj_end(); unsigned char g[8]; size_t n = nsym_readfile(P[w], g, 8); sym_check(n == (m == 0 ? (w == 0 ? 3u : 2u) : m == 1 ? 1u : (w == 0 ? 3u : w == 3 ? 2u : 0u) + 1u), "opening for writing empties the file, for reading or appending keeps it"); sym_cover("opened"); }
void t_file_count(void) { // negative counts are refused, nothing is transferred
  long long n = sym_i64("n"); int rd = sym_choose("read", 2); nsym_mkfile("f", "abcdef", 6); StaticMapSlot sl[] = { NJ_INT("N", n), NJ_END }; if (!nj_boot(sl)) return; bool ok = nj_run(rd ? "f = files.openFile('f', files.READ); b = buffer.new(4); out(files.read(f, b, N)); out(b[0]);" : "f = files.openFile('f', files.WRITE); b = buffer.new(4); out(files.write(f, b, N));"); if (n < 0) { sym_check(!ok && nj_nout == 0, "a negative count is an error"); sym_cover("negative"); } else { sym_check(ok && nj_isint(0, n < 4 ? n : 4), "no more than the buffer holds"); if (rd) sym_check(nj_isint(1, n > 0 ? 'a' : 0), "read"); sym_cover("count"); } nj_end(); if (!rd && n >= 0) { unsigned char g[8]; sym_check(nsym_readfile("f", g, 8) == (size_t)(n < 4 ? n : 4), "written"); } }
void t_file_many(void) { // independent handles, to one or several files
  if (!nj_boot(NULL)) return; nsym_mkfile("a", "12345", 5); int w = sym_choose("w", 3); bool ok = nj_run(w == 0 ? "f = files.openFile('a', files.READ); g = files.openFile('a', files.READ); b = buffer.new(2); files.read(f, b); out(b[0]); files.read(g, b); out(b[0]); files.read(f, b); out(b[0]); files.read(g, b, 1); out(b[0]);" : w == 1 ? "fs = []; i = 0; while i < 6: { fs[i] = files.openFile(string.cat('o', toString(i)), files.WRITE); i = i + 1; } b = buffer.new(1); i = 0; while i < 6: { b[0] = 65 + i; files.write(fs[5 - i], b); i = i + 1; } out(1);" : "f = files.openFile('b', files.WRITE); b = buffer.fromString('hey'); files.write(f, b); f = none; out(2);"); sym_check(ok, "works"); nj_end(); if (w == 0) sym_check(nj_isint(0, '1') && nj_isint(1, '1') && nj_isint(2, '3') && nj_isint(3, '3'), "each handle has its own place"); else if (w == 1) { for (int i = 0; i < 6; i++) { char nm[3] = { 'o', (char)('0' + i), 0 }; char g[4]; sym_check(nsym_readfile(nm, g, 4) == 1 && g[0] == 'A' + 5 - i, "each file has what was written to it"); } } else { char g[8]; sym_check(nsym_readfile("b", g, 8) == 3 && !memcmp(g, "hey", 3), "text can be written"); } sym_cover("many"); }
static int seen(const char *n) { int c = 0; for (int i = 0; i < nj_nout; i++) if (istext(i, n)) c++; return c; }
void t_dir_list(void) { // a directory gives each of its entries once, then none
  int w = sym_choose("dir", 6); static const char *D[] = { ".", "sub", "./sub/", "absent", "f", "" }; nsym_mkfile("f", "x", 1); nsym_mkfile("g h", "y", 1); nsym_mkfile("sub/one", "x", 1); nsym_mkfile("sub/two", "x", 1); nsym_mkfile("sub/in/three", "x", 1); StaticMapSlot sl[] = { NJ_STR("D", D[w], strlen(D[w])), NJ_END }; if (!nj_boot(sl)) return; bool ok = nj_run("d = files.openDir(D); out(type(d) == Directory); if d != none: { n = files.nextDirItem(d); while n != none: { out(n); n = files.nextDirItem(d); } out(files.nextDirItem(d), 1); }"); sym_check(ok, "never ends the program"); if (w > 2) { sym_check(nj_nout == 1 && nj_isbool(0, false), "what is no directory gives none"); sym_cover("absent"); nj_end(); return; } sym_check(nj_isbool(0, true) && nj_isnone(nj_nout - 2) && nj_isint(nj_nout - 1, 1), "ends with none, again and again"); if (w == 0) sym_check(seen("f") == 1 && seen("g h") == 1 && seen("sub") == 1 && seen("one") == 0, "its own entries once"); else sym_check(seen("one") == 1 && seen("two") == 1 && seen("in") == 1 && seen("three") == 0 && nj_nout == 8, "each entry once, and no other"); sym_cover("listed"); nj_end(); }
// ---------------------------------------------------------------- C33
void t_math_one(void) { // every function is the one of the C library, for every float
  static const char *N[] = { "sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "log10", "sqrt" }; int k = sym_choose("f", 10); double x = sym_f64("x"), r; StaticMapSlot sl[] = { NJ_FLT("X", x), NJ_END }; if (!nj_boot(sl)) return; sb0(); sb("out(math."); sb(N[k]); sb("(X));"); bool ok = sb_run(); switch (k) { case 0: r = sin(x); break; case 1: r = cos(x); break; case 2: r = tan(x); break; case 3: r = asin(x); break; case 4: r = acos(x); break; case 5: r = atan(x); break; case 6: r = exp(x); break; case 7: r = log(x); break; case 8: r = log10(x); break; default: r = sqrt(x); } sym_check(ok && nj_nout == 1 && nj_isflt(0, r), "the function it is named after"); sym_cover("function"); nj_end(); }
void t_math_two(void) { double x = sym_f64("x"), y = sym_f64("y"); int k = sym_choose("f", 2); StaticMapSlot sl[] = { NJ_FLT("X", x), NJ_FLT("Y", y), NJ_END }; if (!nj_boot(sl)) return; bool ok = nj_run(k ? "out(math.pow(X, Y));" : "out(math.atan2(X, Y));"); double r = k ? pow(x, y) : atan2(x, y); sym_check(ok && nj_isflt(0, r), "the function it is named after, arguments in order"); sym_cover("function"); nj_end(); }
void t_math_round(void) { // floor and ceil are exact, or refused when no integer fits
  double x = sym_f64("x"); int k = sym_choose("ceil", 2); StaticMapSlot sl[] = { NJ_FLT("X", x), NJ_END }; if (!nj_boot(sl)) return; bool ok = nj_run(k ? "out(math.ceil(X));" : "out(math.floor(X));"); double r = k ? ceil(x) : floor(x); bool fit = r >= -9223372036854775808.0 && r < 9223372036854775808.0; sym_check(ok == fit, "an integer exactly if it fits"); if (fit) { sym_check(nj_nout == 1 && nj_isint(0, (long long)r), "the nearest one on that side"); sym_cover("rounded"); } else { sym_check(nj_err.occurred && nj_nout == 0, "or an error"); sym_cover("refused"); } nj_end(); }
void t_math_const(void) { if (!nj_boot(NULL)) return; bool ok = nj_run("out(math.PI, math.E);"); sym_check(ok && nj_isflt(0, 3.14159265358979323846) && nj_isflt(1, 2.7182818284590452354), "the constants"); nj_end(); }
static const unsigned long long K_[] = { 0, 1, 2, 5, 99, 1000, 65535, 4294967295ULL, 9007199254740993ULL, 9223372036854775807ULL, 9223372036854775808ULL, 18446744073709551615ULL };
void t_random_range(void) { // for every lower bound and every number the generator gives
  int k = sym_choose("size", 12), how = sym_choose("how", 3); long long a, b; if (how == 0) { a = sym_i64("min"); b = (long long)((unsigned long long)a + K_[k]); sym_assume(a <= b); } else if (how == 1) { a = 0; b = (long long)K_[k]; if (b < 0) sym_end(); } else { b = 9223372036854775807LL; a = (long long)((unsigned long long)b - K_[k]); } nsym_rand_mode = 1; StaticMapSlot sl[] = { NJ_INT("A", a), NJ_INT("B", b), NJ_END }; if (!nj_boot(sl)) return; bool ok = nj_run(how == 0 ? "out(random.generate(A, B));" : how == 1 ? "out(random.generate(none, B));" : a == 0 ? "out(random.generate());" : "out(random.generate(A));"); sym_check(ok && nj_nout == 1 && nj_out[0].tag == V_INT, "an integer"); sym_check(nj_out[0].i >= a && nj_out[0].i <= b, "between the bounds, these included"); sym_cover("between"); nsym_rand_mode = 0; nj_end(); }
void t_random_order(void) { // for every pair of bounds
  long long a = sym_i64("min"), b = sym_i64("max"); int r = sym_choose("none", 3); StaticMapSlot sl[] = { NJ_INT("A", a), NJ_INT("B", b), NJ_END }; if (!nj_boot(sl)) return; if (r == 1) sym_assume(a == 0); if (r == 2) sym_assume(b == 9223372036854775807LL); nsym_rand_mode = 2; bool ok = nj_run(r == 0 ? "out(random.generate(A, B));" : r == 1 ? "out(random.generate(none, B));" : "out(random.generate(A));"); sym_check(ok == (a <= b), "bounds in the wrong order, and no others, are refused"); if (ok) { sym_check(nj_nout == 1 && nj_out[0].tag == V_INT && nj_out[0].i >= a && nj_out[0].i <= b, "any others give a number between them"); sym_cover("accepted"); } else { sym_check(nj_err.occurred && nj_nout == 0, "with an error"); sym_cover("refused"); } nsym_rand_mode = 0; nj_end(); }
void t_random_seed(void) { // the same seed gives the same numbers
  long long s = sym_range("seed", 0, 1000); StaticMapSlot sl[] = { NJ_INT("S", s), NJ_END }; if (!nj_boot(sl)) return; bool ok = nj_run("random.seed(S); a = random.generate(0, 1000000); b = random.generate(0, 1000000); random.seed(S); c = random.generate(0, 1000000); d = random.generate(0, 1000000); out(c == a, d == b);"); sym_check(ok && nj_isbool(0, true) && nj_isbool(1, true), "the same numbers again"); sym_cover("seed"); nj_end(); }
// ---------------------------------------------------------------- C34
void t_start_minmax(void) { // abs, min and max of integers and floats
  int fa = sym_choose("fa", 2), fb = sym_choose("fb", 2), w = sym_choose("w", 3); long long a = sym_i64("a"), b = sym_i64("b"); double x = sym_f64("x"), y = sym_f64("y"); if (fa != fb) { sym_assume(fa ? b > -1000 && b < 1000 : a > -1000 && a < 1000); } StaticMapSlot sl[] = { fa ? (StaticMapSlot)NJ_FLT("A", x) : (StaticMapSlot)NJ_INT("A", a), fb ? (StaticMapSlot)NJ_FLT("B", y) : (StaticMapSlot)NJ_INT("B", b), NJ_END }; if (!nj_boot(sl)) return; if (w == 2 && fb) sym_end();
  bool ok = nj_run(w == 0 ? "out(min(A, B));" : w == 1 ? "out(max(A, B));" : "out(abs(A));"); if (w == 2) { if (fa) sym_check(ok && nj_isflt(0, x < 0 ? -x : x), "the absolute value"); else if (a == -9223372036854775807LL - 1) sym_check(!ok, "which may not exist"); else sym_check(ok && nj_isint(0, a < 0 ? -a : a), "the absolute value"); sym_cover("abs"); nj_end(); return; } double da = fa ? x : (double)a, db = fb ? y : (double)b; bool first = fa || fb ? (w == 0 ? da < db : da > db) : (w == 0 ? a < b : a > b); int f = first ? fa : fb; sym_check(ok && nj_nout == 1 && (f ? nj_isflt(0, first ? x : y) : nj_isint(0, first ? a : b)), "the smaller or larger of the two, as it is"); sym_cover("minmax"); nj_end(); }
void t_start_append(void) { // append adds one item at the end
  int n = sym_choose("n", 18); long long v = sym_i64("v"); StaticMapSlot sl[] = { NJ_INT("V", v), NJ_INT("N", n), NJ_END }; if (!nj_boot(sl)) return; bool ok = nj_run("l = []; i = 0; while i < N: { append(l, i); i = i + 1; } append(l, V); out(count(l), l[N]); i = 0; while i < N: { out(l[i] == i); i = i + 1; } out(append(l, l)); out(count(l));"); sym_check(ok && nj_isint(0, n + 1) && nj_isint(1, v) && nj_nout == n + 4 && nj_isint(n + 3, n + 2), "one more item, at the end"); for (int i = 0; i < n; i++) sym_check(nj_isbool(2 + i, true), "the others stay"); sym_cover("append"); nj_end(); }
void t_start_iter(void) { // an iterator gives every value with its key and position once, then none
  int kind = sym_choose("kind", 4), n = sym_choose("n", 7); long long v = sym_range("v", 0, 100); StaticMapSlot sl[] = { NJ_INT("V", v), NJ_END }; if (!nj_boot(sl)) return; sb0(); if (kind < 2) { sb(kind ? "c = {" : "c = ["); for (int i = 0; i < n; i++) { if (i) sbc(','); if (kind) { if (i & 1) sbi(i * 10); else { sb("k"); sbi(i); } sb(": "); } sb("V + "); sbi(i); } sb(kind ? "};" : "];"); } else if (kind == 2) sb("c = { fun iter(this) { return { n: 0, fun next(it) { it.n = it.n + 1; if it.n > 3: return none; x = it.n - 1; return it.n, 'k', x; } }; } };"); else sb("c = { a: V, fun iter(this) 5; };");
  sb(kind == 3 ? "i = makeIterator(c, false);" : "i = makeIterator(c);"); sb(" j = 0; while j < 9: { v, k, p = i->next(); out(v, k, p); j = j + 1; }"); bool ok = sb_run(); sym_check(ok && nj_nout == 27, "an iterator never fails"); if (kind == 3) { sym_check(nj_isint(0, v) && nj_isstr(1, "a", 1) && nj_isint(2, 0) && nj_isstr(4, "iter", 4) && nj_isnone(6), "methods can be ignored"); sym_cover("ignored"); nj_end(); return; }
  if (kind == 2) n = 3; for (int i = 0; i < 9; i++) { if (i >= n) { sym_check(nj_isnone(3 * i), "none after the last, again and again"); continue; } if (kind == 2) { sym_check(nj_isint(3 * i, i + 1) && nj_isint(3 * i + 2, i), "the object's own iterator"); continue; } sym_check(nj_isint(3 * i, v + i) && nj_isint(3 * i + 2, i), "each value once, in order, with its position"); if (kind == 0) sym_check(nj_isint(3 * i + 1, i), "its index"); else if (i & 1) sym_check(nj_isint(3 * i + 1, i * 10), "its key"); else { char k[3] = { 'k', (char)('0' + i), 0 }; sym_check(istext(3 * i + 1, k), "its key"); } } sym_cover("iterated"); nj_end(); }
void t_start_iter_two(void) { // iterators are independent; items may be replaced while iterating
  if (!nj_boot(NULL)) return; bool ok = nj_run("l = [1, 2, 3]; a = makeIterator(l); b = makeIterator(l); out(a->next(), b->next()); x, k = a->next(); out(x, k); l[2] = 9; y = b->next(); out(y); z = a->next(); out(z); w = b->next(); out(w); m = a->next(); out(m);"); sym_check(ok, "works"); int i = 0; static const int W[] = { 2, 1, 2, 9, 9 }; (void)W; (void)i; sym_check(nj_isnone(nj_nout - 1) && nj_isint(nj_nout - 2, 9) && nj_isint(nj_nout - 3, 9) && nj_isint(nj_nout - 4, 2), "each has its own position"); sym_cover("two"); nj_end(); }
void t_start_iter_mod(void) { // an iterator visits the items there were when it was made, as they are when it gets to them
  int map = sym_choose("map", 2), n = sym_choose("n", 5), at = sym_choose("at", n + 2), what = sym_choose("what", 4), w = n ? sym_choose("which", n) : 0; long long v = sym_range("v", 0, 100); StaticMapSlot sl[] = { NJ_INT("V", v), NJ_INT("N", n), NJ_INT("AT", at), NJ_INT("W", w), NJ_END }; if (!nj_boot(sl)) return; if (what == 2 && n == 0) sym_end();
  sb0(); sb(map ? "c = {};" : "c = [];"); sb("i = 0; while i < N: { c[i] = V + i; i = i + 1; } it = makeIterator(c); i = 0; while i < N + 3: { if i == AT: {"); sb(what == 0 ? "c[N] = 500;" : what == 1 ? "c[N] = 500; c[N + 1] = 501;" : what == 2 ? "c[W] = 900;" : "j = makeIterator(c); j->next(); j->next(); x = keysof(c);"); sb("} v, k, p = it->next(); out(v, k, p); i = i + 1; }"); bool ok = sb_run(); sym_check(ok && nj_nout == 3 * (n + 3), "an iterator never fails");
  for (int i = 0; i < n + 3; i++) { if (i >= n) { sym_check(nj_isnone(3 * i) && nj_isnone(3 * i + 1) && nj_isnone(3 * i + 2), "none after the last, again and again"); continue; } sym_check(nj_isint(3 * i, what == 2 && w == i && at <= i ? 900 : v + i) && nj_isint(3 * i + 1, i) && nj_isint(3 * i + 2, i), "each item there was, once, in order"); } sym_cover("changed"); nj_end(); }
void t_start_method(void) { // an object's own iter and toString are used unless declined
  static const char *const M[] = { "", "NAME: 5, ", "fun NAME(this) return V; ", "NAME: typename, ", "NAME: none, ", "fun NAME(this) { return V, 2; } ", "NAME: 'text', " }, *const FL[] = { "", ", true", ", false", ", none" }; int w = sym_choose("what", 2), m = sym_choose("method", 7), f = sym_choose("flag", 4), in = w == 1 ? sym_choose("inside", 4) : 0; long long v = sym_range("v", 10, 99); static char t[8]; t[0] = (char)('0' + v / 10); t[1] = (char)('0' + v % 10); t[2] = 0; StaticMapSlot sl[] = { w ? (StaticMapSlot)NJ_STR("V", t, 2) : (StaticMapSlot)NJ_INT("V", v), NJ_END }; bool own = m == 2 || m == 3 || m == 5; if (in && (f == 2 || (!own && m != 0))) sym_end(); if (!nj_boot(sl)) return;
  sb0(); sb("o = {a: 1, "); for (const char *p = M[m]; *p;) if (!strncmp(p, "NAME", 4)) { sb(w ? "toString" : "iter"); p += 4; } else sbc(*p++); sb("b: 2}; "); if (w == 0) { sb("i = makeIterator(o"); sb(FL[f]); sb("); if "); sb(own && f != 2 ? "false" : "true"); sb(": { i, k = i->next(); out(i, k); } else out(i);"); } else { sb("out(toString("); sb(in == 1 ? "[o]" : in == 2 ? "{x: o}" : in == 3 ? "[{x: [o]}]" : "o"); sb(FL[f]); sb("));"); }
  bool ok = sb_run(); if (w && in == 0 && !(own && f != 2) && (own || m == 99)) { static char x[80]; strcpy(x, "{a: 1, toString: "); strcat(x, m == 3 ? "NFunc" : "Func"); strcat(x, ", b: 2}"); sym_check(ok && istext(0, x), "a declined method is an entry like others"); sym_cover("declined"); nj_end(); return; }
  sym_check(ok, "works"); if (w == 0) { if (own && f != 2) sym_check(nj_nout == 1 && (m == 3 ? nj_isstr(0, "Map", 3) : nj_isint(0, v)), "its own iterator"); else sym_check(nj_isint(0, 1) && nj_isstr(1, "a", 1), "or one over its entries"); }
  else { static char x[80]; x[0] = 0; if (in == 1) strcat(x, "["); if (in == 2) strcat(x, "{x: "); if (in == 3) strcat(x, "[{x: ["); if (own) strcat(x, m == 3 ? "Map" : t); else { strcat(x, "{a: 1, "); if (m == 1) strcat(x, "toString: 5, "); if (m == 4) strcat(x, "toString: none, "); if (m == 6) strcat(x, "toString: text, "); strcat(x, "b: 2}"); } if (in == 1) strcat(x, "]"); if (in == 2) strcat(x, "}"); if (in == 3) strcat(x, "]}]"); sym_check(nj_nout == 1 && istext(0, x), "its own text, or one of its entries"); } sym_cover("method"); nj_end(); }
void t_start_types(void) { // the types the library exports and isCallable
  static const struct { const char *e; int call, num, coll; } V[] = { {"1", 0, 1, 0}, {"1.5", 0, 1, 0}, {"'a'", 0, 0, 0}, {"true", 0, 0, 0}, {"none", 0, 0, 0}, {"[1]", 0, 0, 1}, {"{}", 0, 0, 1}, {"print", 1, 0, 0}, {"fn", 1, 0, 0}, {"toString", 1, 0, 0}, {"int", 0, 0, 0}, {"buffer.new(1)", 0, 0, 0}, {"math.sin", 1, 0, 0} }; int k = sym_choose("k", 13); if (!nj_boot(NULL)) return; sb0(); sb("fun fn() 1; v = "); sb(V[k].e); sb("; out(isCallable(v), istypeof(Callable, v), istypeof(Numeric, v), istypeof(Collection, v), istypeof(Func, v) or istypeof(NFunc, v));"); bool ok = sb_run(); sym_check(ok && nj_isbool(0, V[k].call) && nj_isbool(1, V[k].call) && nj_isbool(2, V[k].num) && nj_isbool(3, V[k].coll) && nj_isbool(4, V[k].call), "describe exactly their values"); sym_cover("types"); nj_end(); }
void t_start_badargs(void) { // annotated parameters of the library refuse other kinds
  static const char *C[] = { "makeIterator(1)", "makeIterator('abc')", "makeIterator(none)", "integerFromDigit(5)", "append(5, 1)", "append({}, 1)", "abs('a')", "abs(none)", "min(1, 'a')", "max(none, 1)", "integerFromDigit('')", "toString(true)", "toString(buffer.new(1))", "makeIterator({ iter: 3, next: 4 })->nope()" }; int k = sym_choose("k", 14); if (!nj_boot(NULL)) return; sb0(); sb("out('s'); x = "); sb(C[k]); sb("; out('e');"); bool ok = sb_run(); sym_check(!ok && nj_err.occurred && nj_nout == 1, "refused with an error"); sym_cover("refused"); nj_end(); }
// ---------------------------------------------------------------- C38
static struct { int call; long a, b, c; unsigned char in[24]; const void *p; size_t n; } L[8]; static int ln; static long res_[8]; static unsigned char wr[8];
static long model(int call, long a, long b, long c, const void *in, void *out, size_t n) { if (ln >= 8) { sym_check(0, "too many calls of the system"); return -1; } L[ln].call = call; L[ln].a = a; L[ln].b = b; L[ln].c = c; L[ln].p = out; L[ln].n = n; if (in) memcpy(L[ln].in, in, n < 24 ? n : 24); long r = res_[ln]; ln++; if (call == SYS_recv_ && r > 0) { sym_assume(r <= (long)n); memcpy(out, wr, r); } if (call == SYS_accept_ && r >= 0) { unsigned char sa[16] = { 2, 0, wr[0], wr[1], 127, 0, 0, 1 }; memcpy(out, sa, 16); } return r; }
static bool iserr(int k) { return nj_out[k].tag == V_STR && nj_out[k].n > 0; }
static bool in32(long long v) { return v >= -2147483648LL && v <= 2147483647LL; }
void t_net_call(void) { // each call reaches the system with exactly its arguments, its outcome is reported, failures are values
  int w = sym_choose("call", 8); long long a = sym_i64("a"), b = sym_i64("b"), c = sym_i64("c"); bool fail = sym_choose("fail", 2); for (int i = 0; i < 8; i++) { res_[i] = 0; wr[i] = (unsigned char)('A' + i); } ln = 0; if (w == 4 || w == 5) { wr[0] = sym_u8("w"); wr[1] = sym_u8("w"); } StaticMapSlot sl[] = { NJ_INT("A", a), NJ_INT("B", b), NJ_INT("C", c), NJ_END }; if (!nj_boot(sl)) return; nsym_sys = model; bool ok;
  switch (w) {
  case 0: { int opt = sym_choose("reuse", 4); long fd = (long)sym_range("fd", 0, 100); res_[0] = fail ? -EACCES : fd; ok = nj_run(opt == 0 ? "out(net.socket(A, B, C)); x, e = net.socket(A, B, C);" : opt == 1 ? "f, e = net.socket(A, B, C, false); out(f, e);" : "f, e = net.socket(A, B, C, true); out(f, e);"); if (opt == 3 && !fail) res_[1] = -EINVAL; if (opt == 0) { nsym_sys = NULL; if (!in32(a) || !in32(b) || !in32(c)) sym_check(!ok && ln == 0, "what is no such number is refused"); else { sym_check(ok && L[0].a == a && L[0].b == b && L[0].c == c && L[0].call == SYS_socket_, "socket gets its arguments"); sym_check(fail ? nj_isnone(0) : nj_isint(0, fd), "the descriptor or none"); } sym_cover("socket"); nj_end(); return; }
    nsym_sys = NULL; if (!in32(a) || !in32(b) || !in32(c)) { sym_check(!ok && ln == 0, "what is no such number is refused"); sym_cover("range"); break; } sym_check(ok && ln >= 1 && L[0].call == SYS_socket_ && L[0].a == a && L[0].b == b && L[0].c == c, "socket gets its arguments"); if (fail) sym_check(nj_isnone(0) && iserr(1) && ln == 1, "a failure is none and a reason"); else if (opt == 1) sym_check(nj_isint(0, fd) && nj_isnone(1) && ln == 1, "the descriptor"); else sym_check(nj_isint(0, fd) && nj_isnone(1) && ln == 2 && L[1].call == SYS_setsockopt_ && L[1].a == fd && L[1].n == 4 && L[1].in[0] == 1, "the descriptor, made reusable"); sym_cover("socket"); break; }
  case 1: { res_[0] = fail ? -EADDRINUSE : 0; int ad = sym_choose("address", 5); ok = nj_run(ad == 4 ? "out(net.bind(A, B, C, string.cat('10.20.30.255', string.chr(0), 'x')));" : ad == 0 ? "out(net.bind(A, B, C));" : ad == 1 ? "out(net.bind(A, B, C, none));" : ad == 2 ? "out(net.bind(A, B, C, '10.20.30.255'));" : "out(net.bind(A, B, C, '10.20.30'));"); nsym_sys = NULL; if (!in32(a) || !in32(b) || !in32(c)) { sym_check(!ok && ln == 0, "what is no such number is refused"); sym_cover("range"); break; } sym_check(ok && nj_nout == 1, "bind reports"); if (b != 2 || c < 0 || c > 65535 || ad >= 3) { sym_check(ln == 0 && iserr(0), "a bad family, port or address is a failure"); sym_cover("bad"); break; } sym_check(ln == 1 && L[0].call == SYS_bind_ && L[0].a == a && L[0].n == 16, "bind gets its descriptor"); sym_check(L[0].in[0] == 2 && L[0].in[1] == 0 && L[0].in[2] == (c >> 8) && L[0].in[3] == (c & 255), "family and port"); sym_check(ad == 2 ? L[0].in[4] == 10 && L[0].in[5] == 20 && L[0].in[6] == 30 && L[0].in[7] == 255 : !L[0].in[4] && !L[0].in[5] && !L[0].in[6] && !L[0].in[7], "and address"); sym_check(fail ? iserr(0) : nj_isnone(0), "its failure is a reason, success none"); sym_cover("bind"); break; }
  case 2: res_[0] = fail ? -EBADF : 0; ok = nj_run("out(net.listen(A, B));"); nsym_sys = NULL; if (!in32(a) || !in32(b)) { sym_check(!ok && ln == 0, "what is no such number is refused"); sym_cover("range"); break; } sym_check(ok && ln == 1 && L[0].call == SYS_listen_ && L[0].a == a && L[0].b == b, "listen gets its arguments"); sym_check(fail ? iserr(0) : nj_isnone(0), "its failure is a reason, success none"); sym_cover("listen"); break;
  case 3: { long fd = (long)sym_range("fd", 0, 100); wr[0] = sym_u8("w"); wr[1] = sym_u8("w"); res_[0] = fail ? -EINTR : fd; ok = nj_run("f, d, p = net.accept(A); out(f, d, p);"); nsym_sys = NULL; if (!in32(a)) { sym_check(!ok && ln == 0, "what is no such number is refused"); sym_cover("range"); break; } sym_check(ok && ln == 1 && L[0].call == SYS_accept_ && L[0].a == a, "accept gets its descriptor"); if (fail) sym_check(nj_isnone(0) && iserr(1), "a failure is none and a reason"); else sym_check(nj_isint(0, fd) && nj_isint(1, 0x0100007f) && nj_isint(2, wr[0] * 256 + wr[1]), "the descriptor, address and port of the peer"); sym_cover("accept"); break; }
  case 4: case 5: { long got = (long)sym_range("got", 0, 4); int cnt = sym_choose("count", 2); if (fail) got = -ECONNRESET; res_[0] = got; ok = nj_run(w == 4 ? (cnt ? "b = buffer.new(4); n, e = net.recv(A, b, C); out(n, e, b[0], b[1]);" : "b = buffer.new(4); n, e = net.recv(A, b); out(n, e, b[0], b[1]);") : (cnt ? "b = buffer.new(4); b[0] = 9; n, e = net.send(A, b, C); out(n, e);" : "b = buffer.new(4); b[0] = 9; n, e = net.send(A, b); out(n, e);")); nsym_sys = NULL; if (!in32(a)) { sym_check(!ok && ln == 0, "what is no such number is refused"); sym_cover("range"); break; } sym_check(ok, "never ends the program"); if (cnt && c < 0) { sym_check(ln == 0 && nj_isnone(0) && iserr(1), "a negative count is a failure"); sym_cover("negative"); break; } sym_check(ln == 1 && L[0].a == a && L[0].call == (w == 4 ? SYS_recv_ : SYS_send_) && L[0].n == (size_t)(cnt && c < 4 ? c : 4), "no more than asked for, no more than the buffer"); if (fail) sym_check(nj_isnone(0) && iserr(1), "a failure is none and a reason"); else { sym_check(nj_isint(0, got) && nj_isnone(1), "the number of bytes"); if (w == 4) sym_check(nj_isint(2, got > 0 ? wr[0] : 0) && nj_isint(3, got > 1 ? wr[1] : 0), "which are in the buffer"); } if (w == 5) sym_check(L[0].n == 0 || L[0].in[0] == 9, "the bytes of the buffer"); sym_cover("transfer"); break; }
  case 6: res_[0] = fail ? -EBADF : 0; ok = nj_run("out(net.close(A));"); nsym_sys = NULL; if (!in32(a)) { sym_check(!ok && ln == 0, "what is no such number is refused"); sym_cover("range"); break; } sym_check(ok && ln == 1 && L[0].call == SYS_close_ && L[0].a == a && nj_isint(0, fail ? -1 : 0), "close gets its descriptor and reports"); sym_cover("close"); break;
  default: { long fd = (long)sym_range("fd", 0, 100); res_[0] = fd; res_[1] = -EINVAL; ok = nj_run("f, e = net.socket(2, 1, 0, true); out(f, e);"); nsym_sys = NULL; sym_check(ok && nj_isnone(0) && iserr(1), "an option that cannot be set is a failure"); sym_check(ln == 3 && L[2].call == SYS_close_ && L[2].a == fd, "and the socket is closed"); sym_cover("option"); } }
  nsym_sys = NULL; nj_end(); }
void t_net_slice(void) { // a slice of a buffer is sent and received in its place only
  int o = sym_choose("offset", 4), n = sym_choose("length", 4), send = sym_choose("send", 2); if (o + n > 5) sym_end(); for (int i = 0; i < 8; i++) wr[i] = sym_u8("w"); ln = 0; long got = (long)sym_range("got", 0, 4); sym_assume(got <= n); res_[0] = got; if (!nj_boot(NULL)) return; nsym_sys = model; sb0(); sb("b = buffer.new(5); i = 0; while i < 5: { b[i] = i + 1; i = i + 1; } s = buffer.sliceUp(b, "); sbi(o); sb(", "); sbi(n); sb(send ? "); out(net.send(3, s));" : "); out(net.recv(3, s));"); sb(" i = 0; while i < 5: { out(b[i]); i = i + 1; }"); bool ok = sb_run(); nsym_sys = NULL; sym_check(ok && ln == 1 && L[0].n == (size_t)n && nj_isint(0, got), "the slice"); for (int i = 0; i < 5; i++) { int k = i - o; sym_check(nj_isint(1 + i, !send && k >= 0 && k < got ? wr[k] : i + 1), "nothing else changes"); } if (send) for (int i = 0; i < n; i++) sym_check(L[0].in[i] == o + i + 1, "its bytes are sent"); sym_cover("slice"); nj_end(); }
// ---------------------------------------------------------------- larger sizes
static const int ZL[] = {7, 16, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 9000};
void t_big_file(void) { // large files, read and written in pieces of any size
  int n = ZL[sym_choose("n", 28)], pc = sym_choose("piece", 5), form = sym_choose("form", 2); int bs = pc == 0 ? n : pc == 1 ? n + 1 : pc == 2 ? (n + 1) / 2 : pc == 3 ? (n > 100 ? 1000 : 5) : n - 1; unsigned char c = sym_u8("c"), d = sym_u8("d"); static unsigned char f[9100], g[9100], f0[9100]; for (int i = 0; i < n; i++) f[i] = (unsigned char)(i * 7 % 127); StaticMapSlot sl[] = { NJ_INT("N", n), NJ_INT("B", bs), NJ_INT("C", c), NJ_INT("D", d), NJ_STR("S", (char*) f0, n), NJ_END }; memcpy(f0, f, n); f[n / 2] = d; f[n - 1] = c;
  if (form == 0) { nsym_mkfile("f", f, n); nsym_mkfile("g", "", 0); } if (!nj_boot(sl)) return; bool ok; if (form == 0) { ok = nj_run("f = files.openFile('f', files.READ); b = buffer.new(B); t = 0; k = 1; last = none; mid = none; g = files.openFile('g', files.APPEND); while k > 0: { k = files.read(f, b); if k > 0: { if t <= N - 1 and N - 1 < t + k: last = b[N - 1 - t]; if t <= N / 2 and N / 2 < t + k: mid = b[N / 2 - t]; files.write(g, b, k); } t = t + k; } out(t, last, mid);"); sym_check(ok && nj_isint(0, n) && nj_isint(1, c) && nj_isint(2, n / 2 == n - 1 ? c : d), "reading gives every byte of the file once, in order"); nj_end(); size_t k = nsym_readfile("g", g, sizeof g); sym_check(k == (size_t)n && !memcmp(f, g, n), "the copy is the same"); sym_cover("read"); }
  else { ok = nj_run("f = files.openFile('f', files.WRITE); b = buffer.fromString(S); b[N / 2] = D; b[N - 1] = C; t = 0; while t < N: { k = B; if k > N - t: k = N - t; t = t + files.write(f, buffer.sliceUp(b, t, k)); } out(t);"); sym_check(ok && nj_isint(0, n), "writing tells how much was written"); nj_end(); size_t k = nsym_readfile("f", g, sizeof g); sym_check(k == (size_t)n && !memcmp(f, g, n), "the file has exactly those bytes"); sym_cover("written"); } }
void t_big_text(void) { // toString of long collections and texts, toInt of long texts
  int form = sym_choose("form", 4), n = ZL[sym_choose("n", form == 3 ? 16 : 11)]; char c = (char)(sym_u8("c") & 127); StaticMapSlot sl[] = { NJ_INT("N", n), NJ_STR("C", &c, 1), NJ_END }; static char e[9000]; if (!nj_boot(sl)) return; bool ok; int m = 0;
  if (form == 0) { ok = nj_run("l = []; i = 0; e = '['; while i < N: { if i > 0: e = string.cat(e, ', '); if i % 10 == 3: { l[i] = C; e = string.cat(e, C); } else { l[i] = i; e = string.cat(e, toString(i)); } i = i + 1; } t = toString(l); out(t == string.cat(e, ']'), count(t));"); m = 2 + 2 * (n - 1); for (int i = 0; i < n; i++) m += i % 10 == 3 || i < 10 ? 1 : i < 100 ? 2 : 3; }
  else if (form == 1) { ok = nj_run("l = {}; i = 0; e = '{'; while i < N: { if i > 0: e = string.cat(e, ', '); l[i] = C; e = string.cat(e, toString(i), ': ', C); i = i + 1; } t = toString(l); out(t == string.cat(e, '}'), count(t));"); m = 2 + 2 * (n - 1) + 3 * n; for (int i = 0; i < n; i++) m += i < 10 ? 1 : i < 100 ? 2 : 3; }
  else if (form == 2) { sb0(); sb("l = C; e = C; i = 0; while i < N and i < 4: { l = [i, l]; e = string.cat('[', toString(i), ', ', e, ']'); i = i + 1; } t = toString(l); out(t == e, count(t));"); ok = sb_run(); m = 1 + 5 * (n < 4 ? n : 4); }
  else { for (int i = 0; i < n; i++) e[i] = '0'; e[n - 1] = c; e[n] = 0; nj_end(); StaticMapSlot s2[] = { NJ_STR("S", e, n), NJ_END }; if (!nj_boot(s2)) return; ok = nj_run("v, r = string.toInt(S); out(v);"); bool dg = c >= '0' && c <= '9'; sym_check(ok && (dg ? nj_isint(0, c - '0') : nj_isnone(0)), "leading zeros do not matter"); sym_cover("digits"); nj_end(); return; }
  sym_check(ok && nj_isbool(0, true) && nj_isint(1, m), "the text of a value has the texts of all its items"); sym_cover("text"); nj_end(); }
// Points where functions are special: zeros, infinities, NaNs, one, exact powers and roots, limits.
static double mpoint(int k) { static const double P[] = { 0, 0.5, 1, 1.5, 2, 3, 10, 0.1, 1e-320, 1e308, 4503599627370496.5, 9007199254740992.0, 0.25, 0.3333333333333333, 100, 1e-5, 3.141592653589793, 1.5707963267948966 }; if (k < 36) return k & 1 ? -P[k / 2] : P[k / 2]; uint64_t u = k == 36 ? 0x7ff0000000000000ULL : k == 37 ? 0xfff0000000000000ULL : k == 38 ? 0x7ff8000000000000ULL : 1; double d; memcpy(&d, &u, 8); return d; }
void t_math_points(void) { int k = sym_choose("f", 12), a = sym_choose("x", 40), b = k > 9 ? sym_choose("y", 40) : 0; static const char *N[] = { "sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "log10", "sqrt", "pow", "atan2" }; double x = mpoint(a), y = mpoint(b), r; StaticMapSlot sl[] = { NJ_FLT("X", x), NJ_FLT("Y", y), NJ_END }; if (!nj_boot(sl)) return; sb0(); sb("out(math."); sb(N[k]); sb(k > 9 ? "(X, Y));" : "(X));"); bool ok = sb_run(); switch (k) { case 0: r = sin(x); break; case 1: r = cos(x); break; case 2: r = tan(x); break; case 3: r = asin(x); break; case 4: r = acos(x); break; case 5: r = atan(x); break; case 6: r = exp(x); break; case 7: r = log(x); break; case 8: r = log10(x); break; case 9: r = sqrt(x); break; case 10: r = pow(x, y); break; default: r = atan2(x, y); } sym_check(ok && nj_nout == 1 && nj_isflt(0, r), "the function it is named after, also at its special points"); sym_cover("point"); nj_end(); }
// Entry names of any form.
void t_dir_names(void) { static const char *const N[] = { "a", ".hidden", "..twodots", "...", ".a.b", "x.noja", "with space", "-", "A", "a_rather_long_name_that_goes_on_and_on_until_it_has_more_than_one_hundred_characters_in_it_to_be_sure_of_it", "~", "\xc3\xa9" }; int a = sym_choose("first", 12), b = sym_choose("second", 12), kind = sym_choose("kind", 2); if (a == b) sym_end(); char p[300]; for (int i = 0; i < 2; i++) { strcpy(p, "dd/"); strcat(p, N[i ? b : a]); if (kind && i) strcat(p, "/in"); nsym_mkfile(p, "x", 1); } if (!nj_boot(NULL)) return; bool ok = nj_run("d = files.openDir('dd'); n = files.nextDirItem(d); while n != none: { out(n); n = files.nextDirItem(d); }"); sym_check(ok && nj_nout == 4, "every entry once, with . and .."); char t[300]; for (int i = 0; i < 2; i++) { strcpy(t, N[i ? b : a]); int l = (int)strlen(t), c = 0; for (int j = 0; j < nj_nout; j++) if (nj_out[j].tag == V_STR && nj_out[j].n == (size_t)l && !memcmp(nj_out[j].s, t, l < 95 ? l : 95)) c++; sym_check(c == 1, "whatever its name"); } sym_cover("names"); nj_end(); }
// A name with any character in it is the name of that file only, a zero byte included: no file has such a name.
void t_path_char(void) {
  int op = sym_choose("op", 6); char c = (char)sym_range("c", 0, 127); sym_assume(c != '/'); char p[8] = { 'f', c, 'x', 0 }; static char src[80]; strcpy(src, "y = 1;"); nsym_mkfile("f", "abc", 3); nsym_mkfile("d/in", "abc", 3); nsym_mkfile("m", src, 6); nsym_mkfile("fex", "hello", 5);
  if (op == 3) p[0] = 'd'; if (op == 4 || op == 5) p[0] = 'm'; StaticMapSlot sl[] = { NJ_STR("P", p, 3), NJ_END }; if (!nj_boot(sl)) return; static const char *S[] = { "f, e = files.openFile(P, files.READ); out(type(f) == File, e);", "f, e = files.openFile(P, files.WRITE); out(type(f) == File, e);", "f, e = files.openFile(P, files.APPEND); out(type(f) == File, e);", "out(files.openDir(P));", "out(import(P).y);", "fun k() import(P); k(); out(1);" };
  bool ok = nj_run(S[op]); unsigned char g[8]; if (op < 3) { bool can = op == 0 ? c == 'e' : c != 0; sym_check(ok && nj_isbool(0, can), "a file of exactly that name is opened"); sym_check(can ? nj_isnone(1) : nj_out[1].tag == V_STR && nj_out[1].n > 0, "or there is a reason"); sym_cover(can ? "opened" : "none"); } else if (op == 3) { sym_check(ok && nj_isnone(0), "there is no such directory"); sym_cover("directory"); } else { sym_check(!ok && nj_nout == 0 && nj_err.occurred && nj_err.length > 0, "there is no such module"); sym_cover("module"); }
  nj_end(); sym_check(nsym_readfile("f", g, 8) == 3 && !memcmp(g, "abc", 3), "no other file is touched"); if (op == 1 && c) sym_check(nsym_readfile(p, g, 8) == 0, "the file has the whole name"); }
