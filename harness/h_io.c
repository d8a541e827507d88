// C25 error reports, C27 textual output and input.
#include "nj.h"
static char *cap; static size_t capn; static FILE *capf;
static bool boot_cap(StaticMapSlot *x) { RuntimeConfig c = Runtime_GetDefaultConfigs(); c.heap = 1 << 20; capf = open_memstream(&cap, &capn); c.stdout = capf; return nj_boot_cfg(c, x); }
static char ex[4096]; static int exn; // expected text
static void e0(void) { exn = 0; } static void en(const char *s, size_t n) { if (exn + n < sizeof ex) { memcpy(ex + exn, s, n); exn += (int)n; } else sym_check(0, "harness: expectation too long"); } static void es(const char *s) { en(s, strlen(s)); } static void ec(char c) { en(&c, 1); }
static void ei(long long v) { int k = nj_sn; char t[32]; sbi(v); int n = nj_sn - k; memcpy(t, nj_src + k, n); nj_sn = k; nj_src[k] = 0; en(t, n); }
static void same(const char *what) { fflush(capf); sym_check(capn == (size_t)exn && (exn == 0 || !memcmp(cap, ex, exn)), what); }
static char sy[2];
static void gen(int d) { // one expression and its text
  int k = sym_choose("kind", d > 0 ? 14 : 9); switch (k) {
    case 0: sb("42"); es("42"); break; case 1: sb("(-9223372036854775807-1)"); es("-9223372036854775808"); break; case 2: sb("none"); es("none"); break; case 3: sb("true"); es("true"); break; case 4: sb("S"); en(sy, 2); break;
    case 5: sb("''"); break; case 6: sb("-2.5"); es("-2.50"); break; case 7: sb("1234567.875"); es("1234567.88"); break; case 8: sb("?int"); es("?int"); break;
    case 9: case 10: { int n = sym_choose("n", 3); sbc('['); ec('['); for (int i = 0; i < n; i++) { if (i) { sb(","); es(", "); } gen(i ? 0 : d - 1); } sbc(']'); ec(']'); break; }
    case 11: case 12: { int n = sym_choose("n", 3); static const char *KS[] = {"a:", "7:", "'x y':"}, *KE[] = {"a: ", "7: ", "x y: "}; sbc('{'); ec('{'); for (int i = 0; i < n; i++) { if (i) { sb(","); es(", "); } int w = (i + k) % 3; sb(KS[w]); es(KE[w]); gen(i ? 0 : d - 1); } sbc('}'); ec('}'); break; }
    default: sb("(int|"); es("int | "); gen(0); sb(")"); break; } }
void t_print_values(void) { int d = (int)sym_param("d", 1), n = 1 + sym_choose("argc", (int)sym_param("args", 2)); sym_bytes(sy, 2, "s"); for (int i = 0; i < 2; i++) sym_assume(sy[i] >= 1); StaticMapSlot sl[] = { NJ_STR("S", sy, 2), NJ_END }; if (!boot_cap(sl)) return; sb0(); e0(); sb("print("); for (int i = 0; i < n; i++) { if (i) sbc(','); gen(i ? 0 : d); } sb("); print('.');"); es("."); bool ok = sb_run(); if (!ok) sym_end(); same("print writes the text of each argument, in order"); sym_cover("printed"); nj_end(); }
void t_print_num(void) { nsym_full_format = 1; long long v = sym_range("v", -999, 999); int k = sym_choose("wrap", 3); unsigned char by = sym_u8("b"); StaticMapSlot sl[] = { NJ_INT("V", v), NJ_INT("Y", by), NJ_END }; if (!boot_cap(sl)) return; bool ok = nj_run(k == 0 ? "print(V);" : k == 1 ? "print([V]);" : "b = buffer.new(2); b[1] = Y; print(b);"); sym_check(ok, "printing succeeds"); fflush(capf); if (k == 2) { static const char H[] = "0123456789ABCDEF"; e0(); es("[00, "); ec(H[by >> 4]); ec(H[by & 15]); es("]"); same("a buffer prints its bytes in hexadecimal"); sym_cover("buffer"); nj_end(); return; }
  size_t i = k, n = capn - k; bool neg = n > i && cap[i] == '-'; if (neg) i++; long long r = 0; sym_check(i < n && n - i <= 5, "some digits"); sym_check(cap[i] != '0' || n - i == 1, "no leading zeros"); for (; i < n; i++) { sym_check((cap[i] >= '0') & (cap[i] <= '9'), "only digits"); r = r * 10 + (cap[i] - '0'); } sym_check((neg ? -r : r) == v && !(neg && v == 0), "an integer prints as its decimal digits"); sym_cover("number"); nj_end(); }
void t_print_cyclic(void) { // shared and cyclic collections print in finite text, sharing is not a cycle
  static const struct { const char *p, *t; } C[] = { {"l = [1]; l[0] = l; print(l);", "[...]"}, {"m = {}; m.a = m; m.b = 2; print(m);", "{a: ..., b: 2}"}, {"a = []; b = [a, a]; print(b, b);", "[[], []][[], []]"}, {"a = []; b = [a]; a[0] = b; print(a, a);", "[[...]][[...]]"}, {"a = [1]; m = {x: a, y: a}; a[1] = m; print(m); print(a);", "{x: [1, ...], y: [1, ...]}[1, {x: ..., y: ...}]"}, {"s = 'q'; print([s, s, {s: s}]);", "[q, q, {s: q}]"}, {"l = [1]; l[0] = l; print(l); print(l);", "[...][...]"} };
  int k = sym_choose("k", 7); if (!boot_cap(0)) return; bool ok = nj_run(C[k].p); sym_check(ok, "printing succeeds"); e0(); es(C[k].t); same("shared and cyclic collections print finitely"); sym_cover("cyclic"); nj_end(); }
void t_print_bytes(void) { // any text, including zero bytes and control characters
  int n = sym_choose("n", 5); char b[5]; sym_bytes(b, n, "c"); for (int i = 0; i < n; i++) sym_assume((unsigned char)b[i] < 128); StaticMapSlot sl[] = { NJ_STR("S", b, n), NJ_END }; if (!boot_cap(sl)) return; bool ok = nj_run("print(S, '%s%n%d', S);"); sym_check(ok, "printing succeeds"); e0(); en(b, n); es("%s%n%d"); en(b, n); same("a string prints its bytes"); sym_cover("bytes"); nj_end(); }
void t_input_lines(void) { // input() gives the lines of the standard input, then empty strings
  int n = (int)sym_param("n", 4), fill = (int)sym_param("fill", 0); static char b[700]; int m = 0; char t[8]; sym_bytes(t, n, "c"); for (int i = 0; i < n; i++) sym_assume((unsigned char)t[i] < 128); for (int i = 0; i < fill; i++) b[m++] = (char)('a' + i % 7); for (int i = 0; i < n; i++) b[m++] = t[i]; nsym_set_stdin(b, m); if (!boot_cap(0)) return;
  bool ok = nj_run("i = 0; while i < 6: { x = input(); out(x, count(x)); i = i + 1; }"); sym_check(ok, "reading lines succeeds"); int p = 0; for (int k = 0; k < 6; k++) { int s = p; while (p < m && b[p] != '\n') p++; int l = p - s; if (p < m) p++; sym_check(2 * k + 1 < nj_nout && nj_out[2 * k].tag == V_STR && nj_out[2 * k].n == (size_t)l && !memcmp(nj_out[2 * k].s, b + s, l < 95 ? l : 95) && nj_isint(2 * k + 1, l), "each call returns the next line"); } sym_cover("lines"); nj_end(); }
void t_count_type(void) { // count, typename, type and keysof of every kind of value
  static const struct { const char *e, *ty; int n; const char *keys; } V[] = { {"1", "int", -1, 0}, {"1.5", "float", -1, 0}, {"'abc'", "String", 3, 0}, {"true", "bool", -1, 0}, {"none", "None", -1, 0}, {"[4,5]", "List", 2, "[0, 1]"}, {"[]", "List", 0, "[]"}, {"{a: 1, 3: 2}", "Map", 2, "[a, 3]"}, {"{}", "Map", 0, "[]"}, {"buffer.new(3)", "Buffer", 3, "[0, 1, 2]"}, {"int", "Type", -1, 0}, {"?int", "NullableType", -1, 0}, {"int|float", "SumType", -1, 0} }; int k = sym_choose("k", 13), w = sym_choose("w", 4); if (!boot_cap(0)) return; sb0(); sb(w == 0 ? "print(count(" : w == 1 ? "print(typename(" : w == 2 ? "print(keysof(" : "x = "); sb(V[k].e); if (w == 3) { sb("; out(type(x) == "); sb(V[k].ty); sb(");"); } else sb("));"); bool ok = sb_run(); e0();
  if (w == 3) { sym_check(ok && nj_isbool(0, true), "type gives the type object"); sym_cover("type"); nj_end(); return; } if (w == 0 && V[k].n < 0) { sym_check(!ok, "only collections can be counted"); sym_cover("not countable"); nj_end(); return; } sym_check(ok, "accepted"); if (w == 0) ei(V[k].n); else es(w == 1 ? V[k].ty : V[k].keys ? V[k].keys : k == 2 ? "[0, 1, 2]" : "none"); same(w == 0 ? "count is the number of items" : w == 1 ? "typename is the type's name" : "keysof lists the keys in order"); sym_cover("value"); nj_end(); }
// ---------------------------------------------------------------- C25
static int ln; // current line of the source under construction
static void nl(int max) { int k = sym_choose("nl", max + 1); for (int i = 0; i < k; i++) { sbc('\n'); ln++; } }
static const struct { const char *e; const char *msg; } BAD[] = { {"undefinedName", "Reference to undefined variable \"undefinedName\""}, {"1/0", 0}, {"'a'+1", 0}, {"none[0]=1", 0}, {"[1,2][5]=1", 0}, {"5()", 0}, {"-'a'", 0}, {"not 1", 0}, {"1<'a'", 0}, {"error('Boom')", "Boom"}, {"assert(true,false)", "Assertion failed"}, {"import('missing.noja')", 0}, {"9223372036854775807+1", 0}, {"math.sqrt('x')", 0}, {"typed('no')", 0}, {"count(1)", 0} };
static int trace(char *buf, size_t max) { char *p = 0; size_t n = 0; FILE *f = open_memstream(&p, &n); Runtime_PrintStackTrace(nj_rt, f); fclose(f); if (n >= max) n = max - 1; memcpy(buf, p, n); buf[n] = 0; free(p); return (int)n; }
static bool run_named(const char *name, int *rc) { Error e; Error_Init(&e); Source *s = Source_FromString(name, nj_src, nj_sn, &e); if (!s) return false; Object *rets[MAX_RETS]; *rc = runSource(nj_rt, s, rets, &nj_err); Source_Free(s); return true; }
static int line_in(const char *tr, const char *name, int skip, int *at) { // the line number of the skip-th frame of that source, in order; -1 if there is none
  char pat[64]; pat[0] = ' '; strcpy(pat + 1, name); size_t pl = strlen(pat); for (const char *p = tr; *p; p++) if (!strncmp(p, pat, pl) && (p[pl] == ':' || p[pl] == '\n') && skip-- == 0) { if (at) *at = (int)(p - tr); int v = 0; if (p[pl] != ':') return 0; for (p += pl + 1; *p >= '0' && *p <= '9'; p++) v = v * 10 + (*p - '0'); return v; } return -1; }
static void numbered(const char *tr) { // the lines of a report are numbered from 0
  const char *h = "Stack trace:\n"; size_t hl = strlen(h); sym_check(!strncmp(tr, h, hl), "the report has its title"); int k = 0; for (const char *p = tr + hl; *p; k++) { char w[16]; int n = 0; w[n++] = '\t'; w[n++] = '#'; if (k > 9) w[n++] = (char)('0' + k / 10); w[n++] = (char)('0' + k % 10); w[n++] = ' '; w[n] = 0; sym_check(!strncmp(p, w, n), "calls are numbered from the innermost, 0"); p = strchr(p, '\n'); sym_check(p != 0, "a line for each"); if (!p) return; p++; } }
void t_trace(void) { // the report names each call in progress, innermost first, with its line
  int depth = sym_choose("depth", 4), b = sym_choose("bad", (int)(sizeof BAD / sizeof BAD[0])), shape = sym_choose("shape", 3); static char tr[2048]; int lines[5]; if (!nj_boot(NULL)) return; sb0(); ln = 1; nl(1); int tl = ln; sb("fun typed(x: int) 1; "); nl(1); for (int d = 0; d < depth; d++) { sb("fun f"); sbi(d); sb("(x) {"); nl(d == 0 ? 2 : 1); sb("y = 1;"); if (shape == 1) sb("while y == 1: {"); lines[d] = ln; if (d == 0) sb(BAD[b].e); else { sb(shape == 2 ? "return [f" : "f"); sbi(d - 1); sb(shape == 2 ? "(x)]" : "(x)"); } sb(";"); if (shape == 1) { sb("\ny = 2; }"); ln++; } sb("\n}"); ln++; }
  nl(2); lines[depth] = ln; if (depth == 0) sb(BAD[b].e); else { sb("f"); sbi(depth - 1); sb("(3)"); } sb(";\nout(1);\n"); int rc; if (!run_named("prog", &rc)) return;
  sym_check(rc < 0 && nj_err.occurred && nj_nout == 0, "the failing expression ends the program"); sym_check(nj_err.message && nj_err.message[0] && (size_t)nj_err.length == strlen(nj_err.message), "with a message"); if (BAD[b].msg) sym_check(!strcmp(nj_err.message, BAD[b].msg), "that says what happened"); trace(tr, sizeof tr); int at = -1, sk = 0; bool typed = !strncmp(BAD[b].e, "typed", 5); if (typed) { sym_check(line_in(tr, "prog", 0, &at) == tl, "a refused argument is reported in the function that declares it"); sk = 1; }
  for (int d = 0; d <= depth; d++) { int a = at; int l = line_in(tr, "prog", d + sk, &at); sym_check(l == lines[d], "every call in progress is listed with its line"); sym_check(at > a, "innermost first"); } sym_check(line_in(tr, "prog", depth + 1 + sk, 0) == -1, "and nothing else"); numbered(tr); sym_cover("trace"); nj_end(); }
void t_trace_span(void) { // an expression over several lines is reported on one of them
  static const char *E[] = {"x = 1 @+@ 'a'", "x = [1,@ 2@/0@, 3]", "f@(1@,@ none@+@a)", "out(@1@,@ nope@)", "if@ 1@ :@ out(2)", "while@ 1@:@ out(2)", "return @-@ none", "a@.@b = 1", "m = {@ a:@ 1@, b:@ zz@ }", "x = 3@ %@ 0"}; int k = sym_choose("k", 10), pre = sym_choose("pre", 3); if (!nj_boot(NULL)) return; sb0(); ln = 1; for (int i = 0; i < pre; i++) { sb("# c\n"); ln++; } sb("a = 1; fun f(x, y) x;"); int first = ln; for (const char *p = E[k]; *p; p++) if (*p == '@') nl(1); else sbc(*p); int last = ln; sb(";\n\n"); int rc; if (!run_named("prog", &rc)) return; sym_check(rc < 0 && nj_nout == 0, "fails"); static char tr[512]; trace(tr, sizeof tr); int l = line_in(tr, "prog", 0, 0); sym_check(l >= first && l <= last, "the reported line is one of the expression's"); sym_cover("span"); nj_end(); }
void t_trace_syntax(void) { // a syntax error is reported with its line, in the program or in an imported one
  static const char *E[] = {"x = ;", "fun (a) 1;", "break;", "(1, 2);", "1 = 2;", "if 1 out(1);", "[1 2];", "a->b;", "'\\q';", "x = @;"}; int k = sym_choose("k", 10), imp = sym_choose("import", 2), pre = sym_choose("pre", 4); if (!nj_boot(NULL)) return; sb0(); for (int i = 0; i < pre; i++) sb(i == 1 ? "y = 'a\n'; " : "\n"); int l0 = 1; for (int i = 0; i < nj_sn; i++) if (nj_src[i] == '\n') l0++; sb(E[k]); sb("\n\nout(1);"); static char tr[1024]; int rc = 0; if (!imp) { if (!run_named("prog", &rc)) return; } else { nsym_mkfile("mod.noja", nj_src, nj_sn); sb0(); sb("\nx = 1;\n import('mod.noja');\n out(2);"); if (!run_named("prog", &rc)) return; }
  sym_check(rc < 0 && nj_err.occurred && nj_nout == 0, "refused before anything runs"); sym_check(nj_err.type == ErrorType_SYNTAX || nj_err.type == ErrorType_SEMANTIC || nj_err.type == ErrorType_INTERNAL, "as an error of the program's text"); trace(tr, sizeof tr); if (!imp) sym_check(line_in(tr, "prog", 0, 0) == l0 && line_in(tr, "prog", 1, 0) == -1, "with the line of the mistake"); else { char want[32]; strcpy(want, "/mod.noja:"); size_t n = strlen(want); want[n] = (char)('0' + l0); want[n + 1] = '\n'; want[n + 2] = 0; char *q = strstr(tr, want); sym_check(q != 0, "the line of the mistake in the imported file"); int at = 0; sym_check(line_in(tr, "prog", 0, &at) == 3 && q && at > q - tr, "and the line of the import"); } sym_cover("syntax"); nj_end(); }
void t_trace_import(void) { // an error while an imported file runs lists both files
  int pre = sym_choose("pre", 3), infun = sym_choose("fun", 2); if (!nj_boot(NULL)) return; sb0(); for (int i = 0; i < pre; i++) sb("\n"); sb(infun ? "fun g()\n 1/0;" : "a = 1/\n0;"); nsym_mkfile("mod.noja", nj_src, nj_sn); sb0(); sb("\nx = import('mod.noja');\n"); for (int i = 0; i < pre; i++) sb("\n"); sb(infun ? "x.g();" : "out(2);"); int rc; if (!run_named("prog", &rc)) return; sym_check(rc < 0 && nj_nout == 0, "fails"); static char tr[1024]; trace(tr, sizeof tr); char want[32] = "/mod.noja:"; size_t n = strlen(want); want[n] = (char)('1' + pre + infun); want[n + 1] = '\n'; want[n + 2] = 0; char *q = strstr(tr, want); sym_check(q != 0, "the failing line of the imported file"); int at = 0, l = line_in(tr, "prog", 0, &at); sym_check(l == (infun ? 3 + pre : 2) && q && at > q - tr, "and the calling line"); numbered(tr); sym_cover("import"); nj_end(); }
void t_error_text(void) { // error(text) reports exactly that text
  static const int L[] = {0, 1, 2, 254, 255, 256, 257, 300, 1023, 1024, 1025, 2000}; int k = sym_choose("n", 76), n = k < 12 ? L[k] : 460 + k; static char s[2100]; for (int i = 0; i < n; i++) s[i] = (char)('a' + i % 26); int m = n < 3 ? n : 3; for (int i = 0; i < m; i++) { s[i] = (char)sym_u8("c"); sym_assume(s[i] >= 1); } StaticMapSlot sl[] = { NJ_STR("S", s, n), NJ_END }; if (!nj_boot(sl)) return; bool ok = nj_run("out(1);\nerror(S);\nout(2);"); sym_check(!ok && nj_nout == 1, "error ends the program"); sym_check(nj_err.occurred && nj_err.type == ErrorType_RUNTIME && nj_err.length == n && (int)strlen(nj_err.message) == n && !memcmp(nj_err.message, s, n), "error reports exactly its argument");
  char *p = 0; size_t pn = 0; FILE *f = open_memstream(&p, &pn); Error_Print(&nj_err, ErrorType_INTERNAL, f); fclose(f); sym_check((int)pn == n + 17 && !memcmp(p, "Runtime Error: ", 15) && !memcmp(p + 15, s, n) && p[pn - 2] == '.' && p[pn - 1] == '\n', "the printed report is the kind of error and its message"); free(p); sym_cover("error"); nj_end(); }
static bool names_pos(const char *m, int pos) { // every argument position the message gives is this one
  static const char *const W[] = {"first", "second", "third", "fourth"}; for (int i = 0; i < 4; i++) if (strstr(m, W[i]) && i + 1 != pos) return false;
  const char *q = strstr(m, "rgument "); if (!q) return true; q += 8; if (*q == '#') q++; if (*q < '0' || *q > '9') return true; int v = 0; for (; *q >= '0' && *q <= '9'; q++) v = v * 10 + (*q - '0'); return v == pos; }
void t_error_arg(void) { // an error about an argument names that argument
  static const struct { const char *e; int pos; } B[] = { {"assert(true,1)", 2}, {"assert(1)", 1}, {"assert(true,true,none)", 3}, {"string.cat('a','b',3)", 3}, {"string.cat(1,2)", 1}, {"string.ord(1)", 1}, {"string.ord('')", 1}, {"string.chr('a')", 1}, {"string.chr(-1)", 1}, {"string.slice('abc','x',1)", 2}, {"string.slice('abc',1,'x')", 3}, {"string.slice(1,1,1)", 1}, {"string.trim(1)", 1}, {"string.toInt(1)", 1}, {"files.openFile(1,0)", 1}, {"files.openFile('a','b')", 2}, {"files.read(1,buffer.new(1),1)", 1}, {"math.pow(1.0,'a')", 2}, {"math.pow('a',1.0)", 1}, {"math.sqrt('x')", 1}, {"math.floor('x')", 1}, {"math.atan2(1.0,none)", 2}, {"buffer.new('a')", 1}, {"buffer.sliceUp(buffer.new(1),'x',1)", 2}, {"buffer.sliceUp(buffer.new(1),0,'x')", 3}, {"buffer.sliceUp(1,0,1)", 1}, {"buffer.toString(1)", 1}, {"files.openDir(1)", 1}, {"files.nextDirItem(1)", 1} };
  int w = sym_choose("where", 2); if (!nj_boot(NULL)) return; sb0();
  if (w == 0) { int k = sym_choose("k", (int)(sizeof B / sizeof B[0])); sb("out(1);"); sb(B[k].e); sb(";"); bool ok = sb_run(); sym_check(!ok && nj_nout == 1, "a bad argument is refused"); sym_check(names_pos(nj_err.message, B[k].pos), "and the error names the right one"); sym_cover("built-in"); }
  else { int n = 1 + sym_choose("n", 5), bad = sym_choose("bad", n), def = sym_choose("default", 2); long long v = sym_i64("v"); (void)v; sb("fun f("); for (int i = 0; i < n; i++) { if (i) sb(", "); sb("par"); sbc((char)('A' + i)); sb(": int"); if (def && i == bad) sb(" = 'z'"); } sb(") out(2); out(1); f("); for (int i = 0; i < n; i++) { if (i) sb(","); sb(i == bad ? def ? "none" : "'q'" : "7"); } sb(");");
    bool ok = sb_run(); sym_check(!ok && nj_nout == 1, "a bad argument is refused"); char nm[5] = {'p', 'a', 'r', (char)('A' + bad), 0}; sym_check(names_pos(nj_err.message, bad + 1), "and the error names the right one"); sym_check(strstr(nj_err.message, nm) != 0, "by its name"); for (int i = 0; i < n; i++) if (i != bad) { nm[3] = (char)('A' + i); sym_check(strstr(nj_err.message, nm) == 0, "and no other"); } sym_cover("function"); } nj_end(); }
void t_error_arg_value(void) { // the error about an argument's type shows the type and the value
  static const char *const V[][2] = { {"''", ""}, {"'q'", "q"}, {"[]", "[]"}, {"{}", "{}"}, {"none", "none"}, {"1.5", "1.50"}, {"[1,'a']", "[1, a]"}, {"true", "true"}, {"buffer.new(0)", "[]"}, {"buffer.new(2)", "[00, 00]"} }, *const T[][2] = { {"int", "int"}, {"?int", "?int"}, {"[int,String]", "[int, String]"}, {"int|Map", "int | Map"}, {"{a:int}", "{a: int}"} }; int v = sym_choose("v", 10), t = sym_choose("t", 5), a = sym_choose("pos", 2); if ((t == 1 && v == 4) || (t == 2 && v == 6) || (t == 3 && v == 3)) sym_end(); if (!nj_boot(NULL)) return; sb0(); sb(a ? "fun f(z, x: " : "fun f(x: "); sb(T[t][0]); sb(") out(2); out(1); f("); if (a) sb("0,"); sb(V[v][0]); sb(");"); bool ok = sb_run(); sym_check(!ok && nj_nout == 1 && nj_err.message && nj_err.length == (int)strlen(nj_err.message), "refused with a message"); if (!nj_err.message) sym_end();
  const char *m = nj_err.message; char want[64]; strcpy(want, "provided "); strcat(want, V[v][1]); size_t n = strlen(m), l = strlen(want); sym_check(n > l && (!strcmp(m + n - l, want) || !strncmp(m + n - l - 1, want, l)), "it shows the value"); strcpy(want, T[t][1]); sym_check(strstr(m, want) != 0, "and the type"); sym_cover("value"); sym_out(n); nj_end(); }
// ---------------------------------------------------------------- larger sizes
static char *bp; static int bn; static void b0(int max) { bp = malloc((size_t)max); bn = 0; sym_check(bp != 0, "harness: memory"); } static void bs_(const char *s) { size_t n = strlen(s); memcpy(bp + bn, s, n); bn += (int)n; } static void bnl(int n) { memset(bp + bn, '\n', (size_t)n); bn += n; ln += n; } static void bi(int v) { char t[12]; int i = 12; do { t[--i] = (char)('0' + v % 10); v /= 10; } while (v); memcpy(bp + bn, t + i, (size_t)(12 - i)); bn += 12 - i; }
// Long chains of calls, far down in long files: every frame with its line, innermost first.
void t_big_trace(void) {
  static const int GAP[] = {1, 9, 100, 255, 256, 1000, 4096, 5461, 32767, 65535, 65536}; int d = sym_choose("deep", 2) ? 14 : 1 + sym_choose("depth", 13), g = d > 6 ? GAP[sym_choose("gap", 7)] : GAP[sym_choose("gap", 11)], at = sym_choose("at", 3), kind = sym_choose("kind", 3); if (g > 10000 && d > 2) sym_end(); b0(400000); ln = 1; int lines[16], k = 0; long long v = sym_i64("v"); StaticMapSlot sl[] = { NJ_INT("V", v), NJ_END }; if (!nj_boot(sl)) return;
  if (kind == 2) { d = d > 13 ? 13 : d; bs_("fun r(n) {"); bnl(g); int l0 = ln; bs_("if n == 0: {"); bnl(3); int l1 = ln; bs_("return V + 'x'; }"); bnl(2); int l2 = ln; bs_("return r(n - 1); }"); bnl(at ? g : 1); (void)l0; lines[k++] = l1; for (int i = 0; i < d - 1; i++) lines[k++] = l2; lines[k++] = ln; bs_("r("); bi(d - 1); bs_(");"); }
  else { if (d > 14) d = 14; for (int i = 0; i < d; i++) { bs_("fun f"); bi(i); bs_("(x) {"); if (at == 0 || i == d / 2) bnl(g); else bnl(1); lines[k++] = ln; if (kind) bs_("while true: { y = "); if (i == 0) { bs_("V / (V - V)"); } else { bs_("f"); bi(i - 1); bs_("(x)"); } bs_(";"); if (kind) { bnl(1); bs_("}"); } bnl(1); bs_("}"); if (at == 1) bnl(g); } bnl(2); lines[k++] = ln; bs_("f"); bi(d - 1); bs_("(1);"); }
  bnl(3); bs_("out(1);"); Error e; Error_Init(&e); Source *s = Source_FromString("prog", bp, bn, &e); if (!s) return; Object *rets[MAX_RETS]; int rc = runSource(nj_rt, s, rets, &nj_err); sym_check(rc < 0 && nj_err.occurred && nj_nout == 0, "the failing expression ends the program"); static char tr[4096]; trace(tr, sizeof tr); int pos = -1; for (int i = 0; i < k; i++) { int a = pos, l = line_in(tr, "prog", i, &pos); sym_check(l == lines[i], "every call in progress is listed with its line"); sym_check(pos > a, "innermost first"); } sym_check(line_in(tr, "prog", k, 0) == -1, "and nothing else"); Source_Free(s); sym_cover(g > 1000 ? "far" : "trace"); free(bp); nj_end(); }
// A refused argument is reported by name and position, with however many parameters and however long names.
void t_big_error_arg(void) {
  static const int L[] = {1, 10, 60, 100, 200, 300, 400, 450, 480, 500, 600, 1000}; int n = 1 + sym_choose("n", 13), bad = sym_choose("bad", 3), l = n <= 3 ? L[sym_choose("len", 12)] : 3; bad = bad == 0 ? 0 : bad == 1 ? n - 1 : n / 2; if (!nj_boot(NULL)) return; b0(80000); ln = 1; char nm[1100]; for (int i = 0; i < l; i++) nm[i] = (char)('a' + i % 25); nm[l] = 0; bs_("fun f("); for (int i = 0; i < n; i++) { if (i) bs_(", "); bs_(nm); bi(100 + i); bs_(": int"); } bs_(") out(2); out(1); f("); for (int i = 0; i < n; i++) { if (i) bs_(", "); bs_(i == bad ? "'q'" : "7"); } bs_(");"); bp[bn] = 0;
  bool ok = nj_run(bp); sym_check(!ok && nj_nout == 1, "a bad argument is refused"); sym_check(nj_err.occurred && nj_err.message && (size_t)nj_err.length == strlen(nj_err.message) && nj_err.length > 0, "with a message"); if (n <= 4) sym_check(names_pos(nj_err.message, bad + 1), "and the error names the right one"); else { const char *q = strstr(nj_err.message, "rgument "); if (q) { q += 8; if (*q == '#') q++; if (*q >= '0' && *q <= '9') sym_check(atoi(q) == bad + 1, "and the error names the right one"); } }
  size_t x = strlen(nm); if (l <= 200) { char w[1200]; memcpy(w, nm, x); w[x] = (char)('0' + 1); w[x + 1] = (char)('0' + bad / 10); w[x + 2] = (char)('0' + bad % 10); w[x + 3] = 0; sym_check(strstr(nj_err.message, w) != 0, "by its name"); } sym_cover("refused"); free(bp); nj_end(); }
// C27: long texts and long, deep collections.
static char big[9000];
static void same_big(int n, const char *what) { fflush(capf); sym_check(capn == (size_t)n && !memcmp(cap, bp, (size_t)n), what); }
void t_big_print(void) {
  static const int L[] = {8, 16, 31, 33, 64, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097}; int form = sym_choose("form", 5), n = L[sym_choose("n", form >= 1 && form <= 2 ? 13 : form == 3 ? 8 : 24)]; char c = (char)(sym_u8("c") & 127); sym_assume(c != 0); for (int i = 0; i < n; i++) big[i] = (char)('a' + i % 26); big[n / 2] = c; big[n - 1] = c; StaticMapSlot sl[] = { NJ_STR("S", big, n), NJ_INT("N", n), NJ_STR("C", &c, 1), NJ_END }; if (!boot_cap(sl)) return; b0(20000);
  bool ok; if (form == 0) { ok = nj_run("print(S, 1, S);"); memcpy(bp, big, n); bn = n; bp[bn++] = '1'; memcpy(bp + bn, big, n); bn += n; } else if (form == 1) { ok = nj_run("l=[]; i=0; while i<N: { if i%3==0: l[i]=C; else l[i]=i; i=i+1; } print(l);"); bs_("["); for (int i = 0; i < n; i++) { if (i) bs_(", "); if (i % 3 == 0) bp[bn++] = c; else bi(i); } bs_("]"); }
  else if (form == 2) { ok = nj_run("m={}; i=0; while i<N: { m[string.cat('k',toString(i))]=[i]; i=i+1; } print(m);"); bs_("{"); for (int i = 0; i < n; i++) { if (i) bs_(", "); bs_("k"); bi(i); bs_(": ["); bi(i); bs_("]"); } bs_("}"); } else if (form == 3) { ok = nj_run("l=[C]; i=0; while i<N: { if i%2==0: l=[i,l]; else l={k:l}; i=i+1; } print(l);"); for (int i = n; i-- > 0;) { if (i % 2 == 0) { bs_("["); bi(i); bs_(", "); } else bs_("{k: "); } bs_("["); bp[bn++] = c; bs_("]"); for (int i = 0; i < n; i++) bs_(i % 2 == 0 ? "]" : "}"); }
  else { static const char H[] = "0123456789ABCDEF"; if (n > 2000) sym_end(); ok = nj_run("b=buffer.new(N); i=0; while i<N: { b[i]=i%256; i=i+1; } print(b);"); bs_("["); for (int i = 0; i < n; i++) { if (i) bs_(", "); bp[bn++] = H[i % 256 >> 4]; bp[bn++] = H[i % 16]; } bs_("]"); } sym_check(ok, "printing succeeds"); same_big(bn, "print writes the whole text of its arguments"); sym_cover("big"); free(bp); nj_end(); }
void t_big_input(void) { // lines of many lengths, one after another
  static const int L[] = {0, 1, 63, 64, 100, 127, 128, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 3000, 4095, 4096, 4097, 509, 510, 1019, 1020, 1021, 2039, 2040, 2041, 4079, 4080, 4081}; int n = L[sym_choose("n", 35)], m = L[sym_choose("m", 4)], fin = sym_choose("newline at the end", 2); char c = (char)(sym_u8("c") & 127), d = (char)(sym_u8("d") & 127); sym_assume(c != '\n' && d != '\n'); b0(10000); for (int i = 0; i < n; i++) bp[i] = (char)('a' + i % 26); if (n) { bp[n - 1] = c; bp[n / 2] = d; } bp[n] = '\n'; memset(bp + n + 1, 'z', m); bn = n + 1 + m; if (m) bp[bn - 1] = d; if (fin) bp[bn++] = '\n'; nsym_set_stdin(bp, bn); StaticMapSlot sl[] = { NJ_INT("N", n), NJ_END }; if (!boot_cap(sl)) return;
  bool ok = nj_run("x = input(); y = input(); out(count(x), count(y), input()); if N > 0: out(x[N-1], x[N/2]); out(string.slice(y, 0, 0)); print(x,y);"); sym_check(ok, "reading lines succeeds"); sym_check(nj_isint(0, n) && nj_isint(1, m) && nj_isstr(2, "", 0), "each call returns the next line"); if (n) { char e = n / 2 == n - 1 ? d : c; sym_check(nj_isstr(3, &e, 1) && nj_isstr(4, &d, 1), "with its characters"); } memmove(bp + n, bp + n + 1, m); fflush(capf); sym_check(capn == (size_t)(n + m) && !memcmp(cap, bp, (size_t)(n + m)), "the whole line"); sym_cover("long line"); free(bp); nj_end(); }
void t_trace_start(void) { // whatever an expression begins with, its failure is reported on its own lines
  static const char *L[] = {"true", "false", "none", "1", "1.5", "'a'", "v", "[1,@2]", "{a:@1}", "(@3@)", "g(@)", "w[@0]", "m@.a", "not@ true", "-@1", "?@int", "+@2", "v@==@1", "(v@=@2)", "[]", "{}", "1@*@2", "true@ and@ false", "false@ or@ true", "m->id(@)", "{fun@ k()@ 2;@}.k"};
  static const char *R[] = {"@+@zz", "@<@none", "@+@{}", "@%@0.5", "@[@'k'@]@(@1)", "@.q@(@)", "(@)(@)(@)", "@->qq(@)"};
  static const char *S[] = {"if @#@: out(2);", "while @#@: out(2);", "do@ v = 1;@ while @#;", "fun(@x: @#@) x;", "out(@1,@ #@);", "x = [1,@ 2, #@];", "x = {k:@ #@};", "x = true@ and@ #;", "return #;", "#;"};
  int nL = (int)(sizeof L / sizeof *L), nR = (int)(sizeof R / sizeof *R), nS = (int)(sizeof S / sizeof *S); if (!nj_boot(NULL)) return; int l = sym_choose("left", nL), r = sym_choose("right", nR), s = sym_choose("around", nS), mode = sym_choose("mode", 3); if (s == 3) s = 9; if (s == 9 && L[l][0] == '{') sym_end();
  sb0(); ln = 1; sb("\n\nv = 1; w = [1]; fun g() 1; m = {a: 1, fun id(self) 1;}; fun bad() 1;\n\n"); ln = 5; int first = -1, last = -1; char e[96]; e[0] = 0; strcat(e, L[l]); strcat(e, R[r]); int k = 0;
  for (const char *p = S[s]; *p; p++) if (*p == '@') { if (mode == 1) { sbc('\n'); ln++; } } else if (*p == '#') { first = ln; for (const char *q = e; *q; q++) if (*q == '@') { k++; if (mode == 1 || (mode == 2 && k % 2)) { sbc('\n'); ln++; } } else sbc(*q); last = ln; } else sbc(*p);
  sb("\n\n\nout(9);\n"); int rc; if (!run_named("prog", &rc)) return; sym_check(rc < 0 && nj_err.occurred && nj_nout == 0, "the expression fails"); static char tr[1024]; trace(tr, sizeof tr); int g = line_in(tr, "prog", 0, 0); sym_check(g >= first && g <= last, "on one of its own lines"); sym_check(line_in(tr, "prog", 1, 0) == -1, "with no other call in progress"); sym_cover("start"); nj_end(); }
// ---------------------------------------------------------------- C41 files that fail
void t_io_fault(void) { // any call to the file system can fail, alone or with those that follow
  static const char *const P[] = { "f,e=files.openFile('data.txt',files.READ); if f==none: out(e); else { b=buffer.new(10); n=files.read(f,b,4); out(n,b[0]*1000+b[1]*100+b[2]*10+b[3]); }",
    "f,e=files.openFile('new.txt',files.WRITE); if f==none: out(e); else { n=files.write(f,buffer.fromString('ABCD'),4); out(n); }", "x=import('lib.noja'); out(x.v);", "d=files.openDir('.'); if d==none: out(0); else { i=files.nextDirItem(d); out(count(i)>0); }", "out(count(getCurrentWorkingDirectory())>0);", "fun f(x:int) x; f('a');",
    "f=files.openFile('data.txt',files.READ); d=files.openDir('.'); f=d=none; i=0; while i<40: { x=[i,i,i]; i=i+1; } out(i);", "x=import('sub/more.noja'); out(x.v);", "f=files.openFile('data.txt',files.READ); g=files.openFile('data.txt',files.READ); f=none; error('stop');",
    "f,e=files.openFile('none.txt',files.READ); d=files.openDir('.'); n=0; do { i=files.nextDirItem(d); n=n+1; } while i!=none; out(f==none, n>1);", "f=files.openFile('new.txt',files.WRITE); i=0; if f!=none: while i<5: { out(files.write(f,buffer.fromString('AB'))); i=i+1; }", "i=0; while i<3: { f=files.openFile('data.txt',files.READ); if f!=none: out(files.read(f,buffer.new(4))); i=i+1; }" };
  enum { NP = sizeof P / sizeof *P }; int p = sym_choose("prog", NP), file = sym_choose("file", 2); nsym_mkfile("data.txt", "\1\2\3\4\5", 5); nsym_mkfile("new.txt", "0123456789", 10); nsym_mkfile("empty.noja", "", 0); long nm = 0; nsym_mkfile("lib.noja", "v=5;", 4); nsym_mkfile("sub/more.noja", "w=import('in.noja'); v=w.v;", 27); nsym_mkfile("sub/in.noja", "v=5;", 4); nsym_mkfile("prog.noja", P[p], strlen(P[p])); long n = 0, k = 0; long long b0 = 0; bool many = false; nsym_io_fail = 0;
  for (int round = 0; round < 4; round++) { RuntimeConfig c = Runtime_GetDefaultConfigs(); c.heap = p == 6 ? 26000 : 1 << 18; if (!nj_boot_cfg(c, NULL)) { sym_check(0, "boot"); return; } if (round == 0) { nsym_io_count = 0; sym_check(runFile(nj_rt, "empty.noja", &nj_err), "an empty program"); nm = nsym_io_count; } if (round == 2) { k = 1 + sym_choose("k", (int)n); many = sym_choose("many", 2); nsym_io_fails = many ? 1000000 : 1; nsym_io_fail = k; } nsym_io_count = 0; nsym_io_op = 0; nj_nout = 0;
    bool ok; if (file) ok = runFile(nj_rt, "prog.noja", &nj_err); else ok = nj_run(P[p]); nsym_io_fail = 0; int op = nsym_io_op; if (round == 0) n = nsym_io_count; sym_check(ok == !nj_err.occurred, "a run reports an error exactly if it fails"); if (!ok) sym_check(nj_err.message && nj_err.message[0] && (size_t)nj_err.length == strlen(nj_err.message), "with a message");
    bool good = p != 5 && p != 8; if (round != 2) { sym_check(ok == good, "without failures the programs run as ever"); if (p == 0) sym_check(nj_nout == 2 && nj_isint(0, 4) && nj_isint(1, 1234), "data"); if (p == 1) sym_check(nj_nout == 1 && nj_isint(0, 4), "data"); if (p == 2 || p == 7) sym_check(nj_nout == 1 && nj_isint(0, 5), "data"); if (p == 9) sym_check(nj_nout == 2 && nj_isbool(0, true) && nj_isbool(1, true), "after a file that isn't there, a directory is listed to its end"); if (p == 10) sym_check(nj_nout == 5 && nj_isint(4, 2), "data"); if (p == 11) sym_check(nj_nout == 3 && nj_isint(2, 4), "data"); }
    else { bool first = nj_nout > 0; if (file && op != 'x' && !first && p != 5 && p != 8 && p < 10 && ok) sym_check(0, "a program that cannot be read is not run"); bool main = file && k <= nm && op != 'x';
      if (op && !main) { if (p == 0 || p == 1) { if (op == 'o') sym_check(ok && nj_nout == 1 && nj_out[0].tag == V_STR && nj_out[0].n > 0, "a file that can't be opened is none and a text that says why"); if (op == 'r') sym_check(ok && nj_nout == 2 && nj_isint(0, 2) && nj_isint(1, 1200), "as many bytes as were read"); if (op == 'w') sym_check(ok && nj_nout == 1 && nj_isint(0, 2), "as many as were written"); }
        if (p == 2 || p == 7) sym_check(op == 'x' ? many ? !ok || (nj_nout == 1 && nj_isint(0, 5)) : ok && nj_nout == 1 && nj_isint(0, 5) : !ok && nj_nout == 0, "a file that can't be read isn't imported"); if (p == 3) { if (op == 'd') sym_check(ok && nj_nout == 1 && nj_isint(0, 0), "a directory that can't be opened is none"); if (op == 'n') sym_check(!ok && nj_nout == 0, "an entry that can't be read is an error"); } if (p == 4 && op == 'c') sym_check(!ok && nj_nout == 0, "an unknown directory is an error"); if (p == 5) sym_check(!ok, "a refused argument remains one"); if (p == 6 && ok) sym_check(nj_nout == 1 && nj_isint(0, 40), "everything was done"); if (p == 8) sym_check(!ok, "an error remains one"); if (p == 9 && op == 'n') sym_check(!ok && nj_nout == 0, "an entry that can't be read is an error"); if (p == 10 && ok && op == 'w') { sym_check(nj_nout == 5, "each write answers"); for (int i = 0, seen = 0; i < 5 && i < nj_nout; i++) { int full = nj_isint(i, 2); if (!full) { sym_check(nj_isint(i, 1), "how much was written"); seen++; } sym_check(full || many || seen == 1, "only that write is short"); } } if (p == 11 && ok && (op == 'o' || op == 'r')) { sym_check(op == 'r' ? (many ? nj_nout > 0 : nj_nout == 3) : many ? nj_nout < 3 : nj_nout == 2, "each file that was opened is read"); for (int i = 0; i < nj_nout; i++) sym_check(nj_isint(i, 4) || (op == 'r' && nj_isint(i, 2)), "how much was read"); } }
      if (main) sym_check(!ok && nj_nout == 0, "a program that can't be read is an error"); sym_cover(op == 'o' ? "open" : op == 'r' ? "read" : op == 'w' ? "write" : op == 'c' ? "cwd" : op == 'x' ? "close" : op == 'n' ? "entry" : op == 'd' ? "dir" : "other"); }
    nj_end(); long long b = (long long)sym_live(); if (round == 1) b0 = b; if (round > 1) sym_check(b == b0, "every file is closed and every block given back"); } sym_out(n); }
void t_io_huge(void) { // a file that says that it is larger than a program can be isn't run
  static const long L[] = {2147483647L, 2147483648L, 3000000000L, 4294967295L, 4294967296L, 4294967300L, 1L << 40}; int a = sym_choose("a", 8), imp = sym_choose("import", 2); long z = a == 7 ? (long)sym_range("size", 2147483647L, 1L << 60) : L[a]; nsym_mkfile("big.noja", "out(5); out(6);", 15); long long b[3]; for (int r = 0; r < 3; r++) { if (!nj_boot(NULL)) return; nsym_io_count = 0; nsym_ftell_lie = z; bool ok = imp ? nj_run("out(1); import('big.noja'); out(2);") : runFile(nj_rt, "big.noja", &nj_err); nsym_ftell_lie = 0; sym_check(!ok && nj_err.occurred && nj_err.message && nj_err.message[0], "refused with an error"); sym_check(nj_nout == imp, "nothing of it is run"); nj_end(); b[r] = (long long)sym_live(); } sym_check(b[2] == b[1], "the file is closed and everything given back"); sym_cover("refused"); }
