// C32 AST diagrams, C35 command line, C36 profiling, C37 imports and script paths.
#include "nj.h"
#include <unistd.h>
int noja_cli_main(int argc, char **argv);
static char *so, *se; static size_t son, sen;
static int cli(int n, const char **v) { FILE *o = stdout, *e = stderr; fflush(stdout); char *av[12]; for (int i = 0; i < n; i++) av[i] = (char *)v[i]; av[n] = NULL; stdout = open_memstream(&so, &son); stderr = open_memstream(&se, &sen); int rc = noja_cli_main(n, av); fclose(stdout); fclose(stderr); stdout = o; stderr = e; return rc; }
static bool has(const char *t, const char *s) { return t && strstr(t, s) != NULL; }
// ---------------------------------------------------------------- C35
enum { O_INL, O_ASM, O_PROF, O_HEAP, O_OUT, O_DIAG, O_HELP, NO };
static const char *const SH[] = { "-i", "-a", "-p", "-H", "-o", "--diagram-ast", "-h" }, *const LG[] = { "--inline", "--assembly", "--profile", "--heap", "--output", "--diagram-ast", "--help" };
#define PROG "fun f() print('hi');\nf(); f();"
#define ASMP "PUSHSTR \"hi\"; PUSHVAR \"print\"; CALL 1, 1; POP 1; EXIT;"
static const char *const IN[] = { "p.noja", "p.asm", PROG, ASMP, "absent", NULL };
static bool profline(const char *t, size_t n) { return n > 0 && t[n - 1] == '\n' && has(t, "                   f - ") && has(t, " - 2 calls - ") && has(t, "us\n"); }
static void usage_ok(int rc) { sym_check(rc == -1 && son == 0 && has(se, "Usage:"), "a wrong command line is explained on the standard error, and nothing runs"); }
void t_cli_options(void) { // every order and spelling of options, every kind of input
  int k = (int)sym_param("k", 2), n = sym_choose("count", k + 1), in = sym_choose("input", 6), lg = sym_choose("long", 2), extra = sym_choose("extra", 2); int set[NO] = {0}, mode = -1; const char *av[12]; int ac = 0; av[ac++] = "noja";
  for (int i = 0; i < n; i++) { int o = sym_choose("option", NO); if (set[o]) sym_end(); set[o] = 1; av[ac++] = (lg ^ (i & 1)) ? LG[o] : SH[o]; if (o == O_HEAP) av[ac++] = "300000"; if (o == O_OUT) av[ac++] = "res"; if (o == O_ASM || o == O_DIAG || o == O_HELP) mode = o; }
  if (IN[in]) { av[ac++] = IN[in]; if (extra) { av[ac++] = "-h"; av[ac++] = "other"; } }
  nsym_mkfile("p.noja", PROG, strlen(PROG)); nsym_mkfile("p.asm", ASMP, strlen(ASMP)); int rc = cli(ac, av); static char f[4096]; size_t fn = nsym_readfile("res", f, sizeof f - 1); if (fn != (size_t)-1) { sym_check(fn < sizeof f - 1, "harness: output file too long"); f[fn] = 0; }
  if (mode == O_HELP) { sym_check(rc == 0 && sen == 0, "help succeeds"); for (int o = 0; o < NO; o++) sym_check(has(so, SH[o]) && has(so, LG[o]), "help names every option"); sym_check(fn == (size_t)-1, "help writes no file"); sym_cover("help"); return; }
  if (!IN[in]) { usage_ok(rc); sym_check(has(se, "No input file"), "the missing input is named"); sym_cover("no input"); return; }
  bool text_noja = set[O_INL] ? in == 2 : in == 0, text_asm = set[O_INL] ? in == 3 : in == 1;
  if (mode == O_DIAG) { if (!text_noja) { sym_check(rc == -1 && son == 0 && sen > 0 && fn == (size_t)-1, "a diagram that cannot be drawn is refused with a message"); sym_cover("diagram refused"); return; } const char *t = set[O_OUT] ? f : so; sym_check(rc == 0 && sen == 0, "the diagram is drawn"); sym_check(set[O_OUT] ? fn != (size_t)-1 && son == 0 : fn == (size_t)-1, "to the output asked for"); sym_check(!strncmp(t, "digraph G {\n", 12) && t[strlen(t) - 2] == '}', "as a whole graph"); sym_cover("diagram"); return; }
  if (mode == O_ASM ? !text_asm : !text_noja) { sym_check(rc == -1 && son == 0 && has(se, "Error: ") && has(se, "Stack trace:"), "a program that cannot run is refused with a message"); sym_cover("refused"); return; }
  sym_check(rc == 0 && sen == 0, "the program runs"); const char *want = mode == O_ASM ? "hi" : "hihi"; size_t wn = strlen(want); sym_check(son >= wn && !memcmp(so, want, wn), "and prints its output");
  if (set[O_PROF] && mode != O_ASM) { if (set[O_OUT]) { sym_check(son == wn && fn != (size_t)-1 && profline(f, fn), "the profile goes to the output file"); sym_cover("profile to file"); } else { sym_check(profline(so + wn, son - wn), "the profile follows the program's output"); sym_cover("profile"); } }
  else { sym_check(son == wn, "and nothing else"); sym_check(set[O_OUT] || fn == (size_t)-1, "no file is written"); sym_cover("run"); } }
void t_cli_word(void) { // any word is an option exactly if it is spelled like one
  int k = sym_choose("word", NO), lg = sym_choose("long", 2), cut = sym_choose("cut", 3); static char w[20]; strcpy(w, lg ? LG[k] : SH[k]); int n = (int)strlen(w), at = sym_choose("at", n); char c = (char)sym_u8("c"); sym_assume(c != 0 && c != '/' && c != '.'); if (cut == 0) w[at] = c; else if (cut == 1) { w[n] = c; w[n + 1] = 0; at = n; } else { w[at] = 0; if (!at) sym_end(); c = 'x'; }
  int hit = -1; for (int i = 0; i < NO; i++) if (!strcmp(w, SH[i]) || !strcmp(w, LG[i])) hit = i; const char *av[] = { "noja", w, "p" }; nsym_mkfile("p", "print('yo');", 12); int rc = cli(3, av);
  if (hit < 0) { sym_check(rc == -1 && son == 0 && has(se, "doesn't exist"), "any other word is the name of the program"); sym_cover("not an option"); return; }
  switch (hit) { case O_HELP: sym_check(rc == 0 && has(so, "Usage"), "help"); break; case O_PROF: sym_check(rc == 0 && !strcmp(so, "yo"), "profile"); break; case O_DIAG: sym_check(rc == 0 && !strncmp(so, "digraph", 7), "diagram"); break; case O_INL: case O_ASM: sym_check(rc == -1 && son == 0 && sen > 0, "not such a program"); break; default: sym_check(rc == -1 && son == 0 && has(se, "Usage:"), "the option takes the last word"); } sym_cover("option"); }
void t_cli_heap(void) { // -H takes a number of bytes
  char d[12]; int n = 1 + sym_choose("n", 2), big = sym_choose("big", 2); for (int i = 0; i < n; i++) d[i] = (char)('0' + sym_choose("d", 10)); d[n] = 0; bool zero = true; for (int i = 0; i < n; i++) if (d[i] != '0') zero = false; if (big) { strcpy(d + n, "00000"); }
  const char *av[] = { "noja", sym_choose("long", 2) ? "--heap" : "-H", d, "-i", "print('hi');" }; int rc = cli(5, av); if (zero) { usage_ok(rc); sym_cover("zero"); return; } if (big && (n == 2 || d[0] >= '3')) { sym_check(rc == 0 && sen == 0 && !strcmp(so, "hi"), "runs in that much memory"); sym_cover("big"); } else { sym_check(rc == -1 ? son == 0 && sen > 0 : rc == 0 && !strcmp(so, "hi"), "runs or reports that it cannot"); sym_cover("small"); } }
void t_cli_argument(void) { // an option that lacks its argument
  int o = sym_choose("o", 2) ? O_OUT : O_HEAP, lg = sym_choose("long", 2), how = sym_choose("how", 3), pre = sym_choose("pre", 2); const char *av[8]; int ac = 0; av[ac++] = "noja"; if (pre) av[ac++] = "-p"; av[ac++] = lg ? LG[o] : SH[o]; static char w[4]; if (how) { w[0] = '-'; if (how == 2) { w[1] = (char)sym_u8("c"); w[2] = 0; } av[ac++] = w; av[ac++] = "-i"; av[ac++] = "print('hi');"; } int rc = cli(ac, av); usage_ok(rc); sym_check(has(se, o == O_OUT ? "Missing file path" : "Missing byte count"), "what is missing is named"); sym_cover("missing"); }
void t_cli_exit(void) { // the exit code and both outputs of programs that stop anywhere
  static const char *ST[] = { "print('a');", "1/0;", "error('Bad');", "x = ;", "fun f() { print('b'); g(); } f();", "return 3;", "print(S);" , "import('m.noja');", "assert(false);", "" }; int a = sym_choose("s1", 10), b = sym_choose("s2", 10), file = sym_choose("file", 2), prof = sym_choose("profile", 2); sb0(); sb(ST[a]); sb("\n"); sb(ST[b]); int fail = -1; char out[8]; int on = 0; for (int i = 0; i < 2; i++) { int s = i ? b : a; if (s == 3) { fail = i; on = 0; a = b = 3; break; } }
  if (fail < 0) for (int i = 0; i < 2; i++) { int s = i ? b : a; if (s == 0) out[on++] = 'a'; else if (s == 5) break; else if (s == 4) { out[on++] = 'b'; fail = i; break; } else if (s == 7) out[on++] = 'm'; else if (s != 9) { fail = i; break; } } out[on] = 0;
  nsym_mkfile("m.noja", "print('m');", 11); nsym_mkfile("p", nj_src, nj_sn); const char *av[6]; int ac = 0; av[ac++] = "noja"; if (prof) av[ac++] = "-p"; if (!file) av[ac++] = "-i"; av[ac++] = file ? "p" : nj_src; int rc = cli(ac, av); sym_check(rc == (fail >= 0 ? -1 : 0), "the exit code tells whether the program succeeded"); sym_check(son >= (size_t)on && !memcmp(so, out, on), "its output is complete"); if (fail >= 0) sym_check(son == (size_t)on && has(se, "Error: ") && has(se, "Stack trace:"), "the failure is reported on the standard error only"); else sym_check(sen == 0 && (prof || son == (size_t)on), "and nothing else is said"); sym_cover(fail >= 0 ? "failed" : "succeeded"); }
void t_cli_badout(void) { // an output file that cannot be written
  int diag = sym_choose("diagram", 2); const char *av[] = { "noja", diag ? "--diagram-ast" : "-p", "-o", "nodir/x", "-i", "print('hi');" }; int rc = cli(6, av); sym_check(rc == -1 && has(se, "nodir/x"), "a result that cannot be written is an error"); sym_cover("unwritable"); }
// ---------------------------------------------------------------- C32
#define TM 160
static struct { char lab[64]; int kid[8], n; bool rev; } T[TM]; static int tn; // expected
static int nd(const char *l) { if (tn >= TM) sym_check(0, "harness: tree too big"); strcpy(T[tn].lab, l); T[tn].n = 0; T[tn].rev = false; return tn++; }
static int kid(int p, int c) { T[p].kid[T[p].n++] = c; return p; }
static struct { char lab[64]; int kid[40], n, par, decl; } G[TM + 1]; static int gn; // drawn
static int num(const char **p) { if (strncmp(*p, "node_", 5)) return -1; *p += 5; int v = 0, k = 0; while (**p >= '0' && **p <= '9') { v = v * 10 + (*(*p)++ - '0'); k++; } return k && v >= 1 && v <= TM ? v : -1; }
static bool dot(const char *p) { // reads the graph, false if it is not in the language written
  memset(G, 0, sizeof G); gn = 0; if (strncmp(p, "digraph G {\n", 12)) return false; p += 12;
  for (;;) { if (*p == '\n') { p++; continue; } if (*p == '}') return p[1] == '\n' && !p[2]; if (*p++ != '\t') return false; int a = num(&p); if (a < 0) return false; if (a > gn) gn = a;
    if (!strncmp(p, " -> ", 4)) { p += 4; int b = num(&p); if (b < 0 || strncmp(p, ";\n", 2)) return false; p += 2; if (G[b].par || G[a].n >= 40) return false; G[b].par = a; G[a].kid[G[a].n++] = b; }
    else { if (strncmp(p, " [label=\"", 9)) return false; p += 9; int k = 0; while (*p && *p != '"') { char c = *p++; if (c == '\\') { c = *p++; if (c == 'n') c = '\n'; else if (c == 't') c = '\t'; else if (c != '"' && c != '\\') return false; } if (k < 63) G[a].lab[k++] = c; } G[a].lab[k] = 0; G[a].decl++; if (strncmp(p, "\"];\n", 4)) return false; p += 4; } } }
static bool tm(int g, int t) { if (!G[g].decl || strcmp(G[g].lab, T[t].lab) || G[g].n != T[t].n) return false; bool f = true; for (int i = 0; i < T[t].n && f; i++) f = tm(G[g].kid[i], T[t].kid[i]); if (f || !T[t].rev) return f; f = true; // arguments are kept in reverse by the parser
  int c0 = T[t].rev && !strcmp(T[t].lab, "Call"); for (int i = 0; i < T[t].n && f; i++) { int j = i < c0 ? i : T[t].n - 1 - (i - c0); f = tm(G[g].kid[i], T[t].kid[j]); } return f; }
static void drawn(int root) { Error e; Error_Init(&e); int off; char *s = diagramStringAST(nj_src, &e, &off); sym_check(s != NULL, "a program that can be parsed is drawn"); sym_check(dot(s), "the output is a graph, no node has two parents"); int r = 0; for (int i = 1; i <= gn; i++) { sym_check(G[i].decl > 0, "every node has a label"); if (!G[i].par) { sym_check(!r, "there is one root"); r = i; } } sym_check(r && tm(r, root), "the tree drawn is the tree of the program"); free(s); Error_Free(&e); }
static int ge(int d);
static int gpar(void) { int a = nd("args"); T[a].rev = true; int n = sym_choose("params", 3); sbc('('); for (int i = 0; i < n; i++) { if (i) sb(", "); char nm[2] = { (char)('p' + i), 0 }; sb(nm); int p = nd(nm); kid(a, p); int dt = sym_choose("decor", 4); int ty = -1; if (dt & 1) { sb(": "); if (i) sb("?int"); else sb("String"); ty = i ? kid(nd("Nullable Type"), nd("int")) : nd("String"); } if (dt & 2) { sb(" = 4"); kid(p, nd("4")); } if (ty >= 0) kid(p, ty); } sbc(')'); return a; }
static int ge(int d) {
  int c, m; switch (sym_choose("expr", d > 0 ? 19 : 8)) {
    case 0: sb("7"); return nd("7"); case 1: sb("9223372036854775807"); return nd("9223372036854775807"); case 2: sb("2.5"); return nd("2.5"); case 3: sb("'a\\n\\\"\\\\\\t%d'"); return nd("a\n\"\\\t%d"); case 4: sb("true"); return nd("true"); case 5: sb("none"); return nd("none"); case 6: sb("false"); return nd("false"); case 7: sb("b"); return nd("b");
    case 8: { static const char *O[] = { "+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "and", "or", "|" }, *L[] = { "+", "-", "&times;", "/", "%", "==", "!=", "<", "<=", ">", ">=", "and", "or", "Sum Type" }; int o = sym_choose("op", 14); m = nd(L[o]); sbc('('); c = ge(d - 1); kid(m, c); sbc(' '); sb(O[o]); sb(" b)"); return kid(m, nd("b")); }
    case 9: { static const char *O[] = { "+", "-", "not ", "?" }, *L[] = { "+", "-", "!", "Nullable Type" }; int o = sym_choose("op", 4); m = nd(L[o]); sbc('('); sb(O[o]); sbc('('); kid(m, ge(d - 1)); sb("))"); return m; }
    case 10: { int n = sym_choose("n", 4); m = nd("List"); sbc('['); for (int i = 0; i < n; i++) { if (i) sb(", "); kid(m, i ? (sb("1"), nd("1")) : ge(d - 1)); } sbc(']'); return m; }
    case 11: { int n = sym_choose("n", 3); m = nd("Map"); sbc('{'); for (int i = 0; i < n; i++) { if (i) sb(", "); int e = nd("Entry"); sb(i ? "8: " : "k: "); kid(e, nd(i ? "8" : "k")); kid(e, i ? (sb("z"), nd("z")) : ge(d - 1)); kid(m, e); } sbc('}'); return m; }
    case 12: { m = nd("Map"); int e = nd("Entry"); sb("{ fun k"); kid(e, nd("k")); int f = nd("???"); kid(f, gpar()); sb(" ("); kid(f, ge(d - 1)); sb("); }"); kid(e, f); return kid(m, e); }
    case 13: case 14: { int n = sym_choose("n", 4); m = nd("Call"); T[m].rev = true; sb("f"); kid(m, nd("f")); sbc('('); for (int i = 0; i < n; i++) { if (i) sb(", "); kid(m, i ? (sbi(i), nd(i == 1 ? "1" : i == 2 ? "2" : "3")) : ge(d - 1)); } sbc(')'); return m; }
    case 15: m = nd("Select"); sbc('('); kid(m, ge(d - 1)); sb(")[1]"); return kid(m, nd("1"));
    case 16: m = nd("Select"); sbc('('); kid(m, ge(d - 1)); sb(").fld"); return kid(m, nd("fld"));
    case 17: { m = nd("Call"); int a = nd("->"); sbc('('); kid(a, ge(d - 1)); sb(")->met()"); kid(a, nd("met")); return kid(m, a); }
    default: { m = nd("="); sb("(v = "); kid(m, nd("v")); kid(m, ge(d - 1)); sbc(')'); return m; } } }
static int gs(int d);
static int gblock(int d) { int c = nd("compound"), n = sym_choose("stmts", 3); sb("{ "); for (int i = 0; i < n; i++) { if (i) { sb("w;"); kid(c, nd("w")); } else kid(c, gs(d - 1)); } sb(" }"); return c; }
static int gs(int d) {
  int m; switch (sym_choose("stmt", d > 0 ? 9 : 3)) {
    case 0: m = ge(0); sb("; "); return m;
    case 1: { int n = 1 + sym_choose("rets", 3); m = nd("return"); sb("return "); for (int i = 0; i < n; i++) { if (i) sb(", "); kid(m, i ? (sb("r"), nd("r")) : ge(0)); } sb("; "); return m; }
    case 2: { int n = 2 + sym_choose("vars", 2); m = nd("="); int t = nd("Tuple"); for (int i = 0; i < n; i++) { char v[2] = { (char)('s' + i), 0 }; if (i) sb(", "); sb(v); kid(t, nd(v)); } kid(m, t); sb(" = "); kid(m, ge(0)); sb("; "); return m; }
    case 3: sb("if "); m = nd("if"); kid(m, ge(0)); sb(": "); kid(m, gs(d - 1)); return m;
    case 4: sb("if "); m = nd("if-else"); kid(m, ge(0)); sb(": "); kid(m, gblock(d - 1)); sb(" else "); kid(m, gs(0)); return m;
    case 5: sb("while "); m = nd("while"); kid(m, ge(0)); sb(": "); if (sym_choose("break", 2)) { sb("break; "); kid(m, nd("break")); } else kid(m, gs(d - 1)); return m;
    case 6: { m = nd("do-while"); T[m].rev = true; sb("do "); int b = gs(d - 1); sb("while "); kid(m, ge(0)); kid(m, b); sb("; "); return m; }
    case 7: m = nd("g"); sb("fun g"); kid(m, gpar()); sbc(' '); kid(m, sym_choose("block", 2) ? gblock(d) : gs(0)); return m;
    default: return gblock(d); } }
void t_diag_expr(void) { int d = (int)sym_param("d", 2); sb0(); tn = 0; int r = nd("compound"); sb("x = "); int a = nd("="); kid(a, nd("x")); kid(a, ge(d)); sb(";"); kid(r, a); drawn(r); sym_cover("drawn"); }
void t_diag_stmt(void) { int d = (int)sym_param("d", 1); sb0(); tn = 0; int r = nd("compound"); int n = sym_choose("n", 2); if (n) { sb("q; "); kid(r, nd("q")); } kid(r, gs(d)); drawn(r); sym_cover("drawn"); }
void t_diag_text(void) { // any characters in a string literal
  int n = (int)sym_param("n", 2); static char l[64]; sb0(); sb("x = '"); for (int i = 0; i < n; i++) { l[i] = (char)sym_u8("c"); sym_assume(l[i] != 0 && l[i] != '\'' && l[i] != '\\'); sbc(l[i]); } l[n] = 0; sb("';"); tn = 0; int r = nd("compound"), a = nd("="); kid(r, a); kid(a, nd("x")); kid(a, nd(l)); drawn(r); sym_cover("text"); }
void t_diag_wide(void) { // many children
  static const int C[] = { 30, 31, 32, 33, 34, 38 }; int k = C[sym_choose("n", 6)], w = sym_choose("what", 4); sb0(); static const char *O[] = { "return ", "x = [", "f(", "x = {" }, *E[] = { ";", "];", ");", "};" }; sb(O[w]); for (int i = 0; i < k; i++) { if (i) sbc(','); sbi(i); if (w == 3) sb(": 0"); } sb(E[w]); Error e; Error_Init(&e); int off; char *s = diagramStringAST(nj_src, &e, &off); sym_check(s && dot(s), "a graph"); static const char *L[] = { "return", "List", "Call", "Map" }; int c = 0, hit = 0; for (int i = 1; i <= gn; i++) if (!strcmp(G[i].lab, L[w])) { c = G[i].n; hit++; } sym_check(hit == 1 && c == (w == 2 ? k + 1 : k), "every child is drawn"); free(s); sym_cover("wide"); }
void t_diag_bad(void) { // a program that cannot be parsed
  static const char *B[] = { "x = ;", "", "'a", "f(", "{", "}", "if", "return", "fun", "x = 99999999999999999999;", "1 + ", "a.b.", "[1", "break; }" }; int k = sym_choose("bad", 14), n = sym_choose("pre", 3); sb0(); for (int i = 0; i < n; i++) sb("y;\n"); sb(B[k]); Error e; Error_Init(&e); int off = -7; char *s = diagramStringAST(nj_src, &e, &off); if (k == 1) { sym_check(s && dot(s), "the empty program is drawn"); free(s); Error_Free(&e); return; } sym_check(!s && e.occurred && e.length > 0, "what is not a program is refused"); sym_check(off >= 0 && off <= nj_sn, "at a place in its text"); Error_Free(&e); sym_cover("refused"); }
// ---------------------------------------------------------------- C36
static const FunctionExecutionSummary *entry_sum(const char *name, long *calls, int *objs) { size_t n; const FunctionExecutionSummary *s = TimingTable_getSummary(Runtime_GetTimingTable(nj_rt), &n), *one = NULL; *calls = 0; *objs = 0; for (size_t i = 0; i < n; i++) if (!strcmp(s[i].name, name)) { *calls += s[i].calls; (*objs)++; one = &s[i]; } return one; }
static long cnt[4]; static int nj_bin_tick(Runtime *r, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *e) { (void)r; (void)rets; (void)e; if (argc == 1 && Object_IsInt(argv[0])) { long long k = Object_GetInt(argv[0]); if (k >= 0 && k < 4) cnt[k]++; } return 0; }
void t_prof_calls(void) { // the table counts every call of every function, also of functions created anew, recursive, nested or stopped by an error
  int shape = sym_choose("shape", 7), n = sym_choose("n", 4), m = sym_choose("m", 3); RuntimeConfig c = Runtime_GetDefaultConfigs(); c.heap = sym_choose("heap", 2) ? 1 << 20 : 120000; bool prof = sym_choose("profile", 2); c.time = prof; StaticMapSlot sl[] = { NJ_FUN("tick", nj_bin_tick, 1), NJ_INT("N", n), NJ_INT("M", m), NJ_END }; if (!nj_boot_cfg(c, sl)) return; memset(cnt, 0, sizeof cnt);
  static const char *P[] = {
    "fun fa(x) { tick(0); return x; } i = 0; while i < N: { out(fa(i)); i = i + 1; }",
    "fun fa(x) { tick(0); if x > 0: return fa(x - 1) + 1; return 0; } fun fb(x) { tick(1); return fa(x); } out(fb(N)); out(fa(M));",
    "fun fa(x) { tick(0); fun fb(y) { tick(1); return y + x; } i = 0; s = 0; while i < M: { s = s + fb(i); i = i + 1; } return s; } i = 0; while i < N: { out(fa(i)); i = i + 1; }",
    "fun fa(x) { tick(0); if x == 0: 1/0; out(x); fb(x - 1); } fun fb(x) { tick(1); fa(x); } fa(N);",
    "o = { v: 1, fun fa(this) { tick(0); return this.v; } }; i = 0; while i < N: { out(o->fa()); i = i + 1; }",
    "fun fa(x: int, y = M) { tick(0); out(y); } i = 0; while i < N: { fa(i); fa(i, 5, 6); i = i + 1; } fa('s');",
    "l = []; fun mk(k) { tick(2); fun fb() { tick(1); out(k); } return fb; } i = 0; while i < 9 + N: { l[i] = mk(i); i = i + 1; } l[0](); l[8](); g = l[7]; g(); g();" };
  bool ok = nj_run(P[shape]); sym_check(ok == !(shape == 3 || shape == 5), "the program behaves as without profiling"); int want = shape == 0 ? n : shape == 1 ? 2 : shape == 2 ? n : shape == 3 ? n : shape == 4 ? n : shape == 5 ? 2 * n : 4; sym_check(nj_nout == want, "and has the same output");
  if (!prof) { sym_check(Runtime_GetTimingTable(nj_rt) == NULL, "nothing is measured unless asked for"); char *p = 0; size_t pn = 0; FILE *f = open_memstream(&p, &pn); Runtime_SerializeProfilingResultsToStream(nj_rt, f); fclose(f); sym_check(pn == 0, "nor reported"); sym_cover("off"); nj_end(); return; }
  static const char *N_[] = { "fa", "fb", "mk" }; static const int W[] = { 0, 1, 2 }; char *p = 0; size_t pn = 0; FILE *f = open_memstream(&p, &pn); Runtime_SerializeProfilingResultsToStream(nj_rt, f); fclose(f); int lines = 0; for (size_t i = 0; i < pn; i++) if (p[i] == '\n') lines++; int wl = 0;
  for (int i = 0; i < 3; i++) { long calls; int objs; const FunctionExecutionSummary *s = entry_sum(shape == 4 && i == 0 ? "???" : N_[i], &calls, &objs); sym_check(calls == cnt[W[i]] || (shape == 5 && i == 0 && calls == cnt[0] + 1), "the calls reported are the calls made"); if (s) { sym_check(!strcmp(Source_GetName(s->src), "(unnamed)"), "with the file they are in"); sym_check(s->time >= 0, "time passes forward"); } }
  size_t en; const FunctionExecutionSummary *s = TimingTable_getSummary(Runtime_GetTimingTable(nj_rt), &en); for (size_t i = 0; i < en; i++) if (s[i].calls > 0) wl++; sym_check(lines == wl, "the report has a line for each function object called"); const char *q = p; for (size_t i = 0; i < en && q; i++) if (s[i].calls > 0) { const char *e = strchr(q, '\n'), *h = strstr(q, s[i].name); sym_check(h && h < e, "each line names its function"); q = e + 1; } free(p); sym_cover("on"); nj_end(); }
void t_prof_line(void) { // the text of the report
  static const int K[] = { 1, 2, 9, 10, 11 }; int k = K[sym_choose("calls", 5)], w = sym_choose("name", 3); static const char *NM[] = { "f", "abcdefghijklmnopqrst", "abcdefghijklmnopqrstuvwxyz" }, *PAD[] = { "                   f", "abcdefghijklmnopqrst", "abcdefghijklmnopqrstuvwxyz" }; RuntimeConfig c = Runtime_GetDefaultConfigs(); c.heap = 1 << 20; c.time = true; if (!nj_boot_cfg(c, NULL)) return; sb0(); sb("fun "); sb(NM[w]); sb("() 1; fun unused() 2;"); for (int i = 0; i < k; i++) { sb(NM[w]); sb("();"); } Error e; Error_Init(&e); Object *rets[MAX_RETS]; sym_check(runStringEx(nj_rt, "dir/x.noja", nj_src, rets, &e) >= 0, "runs");
  char *p = 0; size_t pn = 0; FILE *f = open_memstream(&p, &pn); Runtime_SerializeProfilingResultsToStream(nj_rt, f); fclose(f); char *x = 0; size_t xn = 0; f = open_memstream(&x, &xn); fprintf(f, "%s - dir/x.noja - %d calls - ", PAD[w], k); fclose(f); sym_check(pn > xn && !memcmp(p, x, xn) && pn > xn + 3 && !strcmp(p + pn - 3, "us\n"), "one line: name, file, number of calls, time"); static char b[256]; sym_check(Runtime_SerializeProfilingResultsToFile(nj_rt, "prof.txt") && nsym_readfile("prof.txt", b, sizeof b) == pn && !memcmp(b, p, pn), "the same in a file"); sym_check(!Runtime_SerializeProfilingResultsToFile(nj_rt, "nodir/x"), "a file that cannot be written is reported"); free(p); free(x); sym_cover("line"); nj_end(); }
// ---------------------------------------------------------------- C37
static bool run_file(const char *name) { return runFile(nj_rt, name, &nj_err); }
static char wd[512];
void t_import_relative(void) { // paths given to import are relative to the file that contains the call, whoever calls it
  static const char *MAIN[] = { "main.noja", "sub/main.noja", "./sub/main.noja", "sub/../main.noja", "sub/deep/main.noja" }, *DIR[] = { "", "sub/", "./sub/", "sub/../", "sub/deep/" }, *REAL[] = { "", "sub/", "sub/", "", "sub/deep/" }; int m = sym_choose("main", 5), t = sym_choose("target", 4), abs = sym_choose("absolute", 2), how = sym_choose("how", 3), mabs = sym_choose("main absolute", 2); static const char *TG[] = { "mod.noja", "sub/mod.noja", "../mod.noja", "./mod.noja" };
  static const char *D[] = { "", "sub/", "sub/deep/", "sub/sub/", "sub/deep/sub/" }; // every folder has its own mod.noja, which says where it is
  if (!nj_boot(NULL)) return; if (!getcwd(wd, sizeof wd - 1)) return; for (int i = 0; i < 5; i++) { sb0(); sb("id = "); sbi(i); sb("; fun again() { return import('mod.noja').id; } fun up() { return import('../mod.noja').id; }"); char nm[64]; strcpy(nm, D[i]); strcat(nm, "mod.noja"); nsym_mkfile(nm, nj_src, nj_sn); }
  int base = m == 1 || m == 2 ? 1 : m == 4 ? 2 : 0; int want = t == 0 || t == 3 ? base : t == 1 ? (base == 0 ? 1 : base == 1 ? 3 : 4) : base == 1 ? 0 : base == 2 ? 1 : -1; if (abs) want = t == 0 || t == 3 ? 0 : t == 1 ? 1 : -1; if (want < 0) sym_end();
  sb0(); sb("m = import('"); if (abs) { sb(wd); sbc('/'); } sb(TG[t]); sb("'); out(m.id);"); if (how == 1) sb(" out(m.again());"); if (how == 2 && want > 0) sb(" out(m.up());"); nsym_mkfile(MAIN[m], nj_src, nj_sn); static char full[600]; strcpy(full, mabs ? wd : ""); if (mabs) strcat(full, "/"); strcat(full, MAIN[m]); bool ok = run_file(full); sym_check(ok, "the import succeeds"); sym_check(nj_isint(0, want), "and loads the file meant"); if (how == 1) { sym_check(nj_isint(1, want), "a function of a module imports relative to the module"); sym_cover("module"); } if (how == 2 && want > 0) { static const int UP[] = { -1, 0, 1, 1, 2 }; sym_check(nj_isint(1, UP[want]), "also from the folder above"); sym_cover("above"); } (void)DIR; (void)REAL; sym_cover("relative"); nj_end(); }
void t_import_string(void) { // a program given as text imports relative to the working directory
  int t = sym_choose("t", 3); static const char *TG[] = { "mod.noja", "sub/mod.noja", "./sub/../mod.noja" }; if (!nj_boot(NULL)) return; nsym_mkfile("mod.noja", "id = 0;", 7); nsym_mkfile("sub/mod.noja", "id = 1;", 7); sb0(); sb("out(import('"); sb(TG[t]); sb("').id); out(getCurrentScriptLocation(), getCurrentScriptDirectory());"); bool ok = sb_run(); sym_check(ok && nj_isint(0, t == 1), "from the working directory"); sym_check(nj_nout == 3 && nj_isnone(1) && nj_isnone(2), "and has no place of its own"); sym_cover("string"); nj_end(); }
void t_import_result(void) { // what a module evaluates to, each time anew
  static const char *B[] = { "x = V;", "x = V; x = x + 1; y = 'k';", "fun x() { return V; }", "", "{ x = V; }", "if true: x = V;", "return V, 2;", "return none;" }; int k = sym_choose("body", 8), twice = sym_choose("twice", 2); long long v = sym_i64("v"); sym_assume(v < 1000 && v > -1000); StaticMapSlot sl[] = { NJ_INT("V", v), NJ_END }; if (!nj_boot(sl)) return; nsym_mkfile("m.noja", B[k], strlen(B[k])); bool ok;
  if (k == 6) { ok = nj_run("a, b = import('m.noja'); out(a, b);"); sym_check(ok && nj_isint(0, v) && nj_isint(1, 2), "a module may return values"); sym_cover("return"); nj_end(); return; } if (k == 7) { ok = nj_run("out(import('m.noja'));"); sym_check(ok && nj_isnone(0), "a module may return values"); nj_end(); return; }
  ok = nj_run(twice ? "a = import('m.noja'); b = import('m.noja'); a.x = 77; a.q = 1; m = b; x = 5; out(type(m) == Map, count(m), b.q);" : "V2 = 3; m = import('m.noja'); out(type(m) == Map, count(m), m.V2);"); int cnt = k == 1 ? 2 : k == 3 ? 0 : 1; sym_check(ok && nj_isbool(0, true) && nj_isint(1, cnt) && nj_isnone(2), "an import gives the variables of the module, no others, in a map of its own");
  ok = nj_run(k == 2 ? "out(import('m.noja').x());" : "out(import('m.noja').x);"); if (k == 3) sym_check(ok && nj_isnone(3), "nothing there"); else sym_check(ok && nj_isint(3, k == 1 ? v + 1 : v), "with their values"); sym_cover("module"); nj_end(); }
void t_import_scope(void) { // a module does not see or change the variables of the importer
  int k = sym_choose("k", 4); if (!nj_boot(NULL)) return; static const char *B[] = { "y = secret;", "secret = 2;", "fun f() { secret = 3; return secret; } f();", "fun print() { return 9; } z = print();" }; nsym_mkfile("m.noja", B[k], strlen(B[k])); bool ok = nj_run("secret = 1; fun g() { local = 4; m = import('m.noja'); out(local); return m; } m = g(); out(secret);"); if (k == 0) { sym_check(!ok && nj_nout == 0, "a module does not see the variables of the importer"); sym_cover("hidden"); nj_end(); return; } sym_check(ok && nj_isint(0, 4) && nj_isint(1, 1), "nor does it change them"); sym_cover("separate"); nj_end(); }
void t_import_bad(void) { // a file that is absent, empty, broken, a folder, or imports itself
  int k = sym_choose("k", 6); if (!nj_boot(NULL)) return; nsym_mkfile("bad.noja", "x = ;", 5); nsym_mkfile("run.noja", "x = 1/0;", 8); nsym_mkfile("self.noja", "import('self.noja');", 20); static const char *P[] = { "out(import('absent.noja'));", "out(import('bad.noja'));", "out(import('run.noja'));", "out(import(''));", "out(import('self.noja'));", "out(import(3));" }; bool ok = nj_run(P[k]); sym_check(!ok && nj_nout == 0 && nj_err.occurred && nj_err.length > 0, "an import that fails ends the program with an error"); sym_cover("fails"); nj_end(); }
void t_import_long(void) { // names at the limit of the internal buffers (1024 bytes)
  if (!nj_boot(NULL)) return; if (!getcwd(wd, sizeof wd - 1)) return; int base = (int)strlen(wd) + 1; static const int L[] = { 1020, 1021, 1022, 1023, 1024, 1025, 1200 }; int k = sym_choose("len", 7), n = L[k] - base, w = sym_choose("how", 3); nsym_mkfile("x", "id = 1;", 7); sb0(); sb("out(import('"); if (w == 1) { sb(wd); sbc('/'); } for (int i = 0; i < n - 1; i++) { sbc(n - 1 - i >= 2 && i % 2 == 0 ? '.' : '/'); } sbc('x'); sb("').id);"); bool ok; if (w == 2) { static char nm[1300]; int q = 0; for (int i = 0; i < n - 1; i++) nm[q++] = n - 1 - i >= 2 && i % 2 == 0 ? '.' : '/'; nm[q++] = 'x'; nm[q] = 0; nsym_mkfile("x", "out(1);", 7); ok = run_file(nm); sym_cover("name"); } else ok = sb_run(); sym_check(ok ? nj_isint(0, 1) : nj_err.occurred && nj_nout == 0, "a long name works or is refused"); if (L[k] < 1024) sym_check(ok, "names that fit work"); else sym_check(!ok, "others do not"); sym_cover("long"); nj_end(); }
void t_script_place(void) { // getCurrentScriptLocation and getCurrentScriptDirectory, in the file that contains the call
  static const char *MAIN[] = { "main.noja", "sub/main.noja", "sub/deep/a b.noja", "x" }; int m = sym_choose("main", 4), who = sym_choose("who", 3); if (!nj_boot(NULL)) return; if (!getcwd(wd, sizeof wd - 1)) return; static const char *Q = "fun where() { out(getCurrentScriptLocation(), getCurrentScriptDirectory(), getCurrentWorkingDirectory()); }"; sb0(); sb(Q); nsym_mkfile("mods/mod.noja", nj_src, nj_sn); sb0(); sb(Q); sb(who == 0 ? " where();" : who == 1 ? " import('" : " fun call(f) f(); call(import('"); if (who) { sb(wd); sb(who == 1 ? "/mods/mod.noja').where();" : "/mods/mod.noja').where);"); } nsym_mkfile(MAIN[m], nj_src, nj_sn);
  bool ok = run_file(MAIN[m]); sym_check(ok && nj_nout == 3, "runs"); static char e[600]; strcpy(e, wd); strcat(e, "/"); strcat(e, who ? "mods/mod.noja" : MAIN[m]); int n = (int)strlen(e); static char got[600]; NV *o = nj_out; size_t l = n < 95 ? n : 95; sym_check(o[0].tag == V_STR && o[0].n == (size_t)n && !memcmp(o[0].s, e, l), "the path of the file"); while (e[n - 1] != '/') n--; l = n < 95 ? n : 95; sym_check(o[1].tag == V_STR && o[1].n == (size_t)n && !memcmp(o[1].s, e, l), "the folder it is in, with a slash at its end"); sym_check(o[2].tag == V_STR && o[2].n == strlen(wd), "the working directory"); (void)got; sym_cover("place"); nj_end(); }
// ---------------------------------------------------------------- larger sizes
void t_import_chain(void) { // files that import files, each in a folder of its own
  int d = 1 + sym_choose("depth", 5), way = sym_choose("way", 3), late = sym_choose("late", 2), seg = sym_choose("segment", 4); static const int SL[] = {1, 8, 30, 100}; int sl = SL[seg]; if (sl > 8 && d > 3) sym_end(); long long v = sym_i64("v"); sym_assume(v < (1LL << 62)); StaticMapSlot in[] = { NJ_INT("V", v), NJ_END }; if (!nj_boot(in)) return; if (!getcwd(wd, sizeof wd - 1)) return;
  static char path[8][1200]; path[0][0] = 0; char sg[128]; for (int i = 1; i <= d; i++) { memset(sg, 'a' + i, sl); sg[sl] = 0; if (way == 1 && i % 2 == 0) { strcpy(path[i], path[i - 2]); } else { strcpy(path[i], path[i - 1]); strcat(path[i], sg); strcat(path[i], "/"); } }
  for (int i = d; i >= 0; i--) { sb0(); sb("id = V + "); sbi(i); sb("; "); if (i < d) { static char rel[1200]; memset(sg, 'a' + i + 1, sl); sg[sl] = 0; rel[0] = 0; if (way == 2) { strcpy(rel, wd); strcat(rel, "/"); strcat(rel, path[i + 1]); } else if (way == 1 && (i + 1) % 2 == 0) strcpy(rel, "../"); else { strcpy(rel, sg); strcat(rel, "/"); } strcat(rel, "m"); int q = (int)strlen(rel); rel[q] = (char)('0' + i + 1); rel[q + 1] = 0; strcat(rel, ".noja"); if (late) { sb("fun next() { return import('"); sb(rel); sb("'); }"); } else { sb("sub = import('"); sb(rel); sb("'); fun next() { return sub; }"); } } else sb("fun next() { return none; }"); if (i) { static char nm[1300]; strcpy(nm, path[i]); strcat(nm, "m"); int q = (int)strlen(nm); nm[q] = (char)('0' + i); nm[q + 1] = 0; strcat(nm, ".noja"); nsym_mkfile(nm, nj_src, nj_sn); } else { sb(" x = next(); while x != none: { out(x.id, getCurrentScriptDirectory()); x = x.next(); }"); nsym_mkfile("main.noja", nj_src, nj_sn); } }
  bool ok = run_file("main.noja"); sym_check(ok && nj_nout == 2 * d, "every file of the chain is loaded"); for (int i = 1; i <= d; i++) sym_check(nj_isint(2 * i - 2, v + i), "with its own values"); sym_cover("chain"); nj_end(); }
void t_import_again(void) { // the same file any number of times
  static const int N[] = {1, 2, 15, 16, 17, 33, 64, 100, 257}; int n = N[sym_choose("n", 9)], keep = sym_choose("keep", 2); long long v = sym_i64("v"); StaticMapSlot in[] = { NJ_INT("V", v), NJ_INT("N", n), NJ_END }; if (!nj_boot(in)) return; static const char M[] = "c = [0]; fun inc() { c[0] = c[0] + 1; return c[0]; } k = V;"; nsym_mkfile("m.noja", M, sizeof M - 1); bool ok = nj_run(keep ? "l = []; i = 0; while i < N: { l[i] = import('m.noja'); l[i].inc(); i = i + 1; } a = l[0].inc(); b = l[N - 1].inc(); out(a, b, l[N - 1].k, count(l));" : "i = 0; while i < N: { x = import('m.noja'); y = x.inc(); i = i + 1; } y = y + 1; z = x.inc(); out(y, z, x.k, i);"); sym_check(ok && nj_nout == 4 && nj_isint(0, 2) && nj_isint(1, keep && n == 1 ? 3 : 2) && nj_isint(2, v) && nj_isint(3, n), "each import runs the file anew, in variables of its own"); sym_cover("again"); nj_end(); }
void t_prof_many(void) { // many functions, many calls
  static const int N[] = {1, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 129, 200}; int n = N[sym_choose("n", 17)], m = sym_choose("calls", 3), clos = sym_choose("again", 2); RuntimeConfig c = Runtime_GetDefaultConfigs(); c.heap = 1 << 20; c.time = true; if (!nj_boot_cfg(c, NULL)) return; static int want[200]; sb0(); for (int i = 0; i < n; i++) { sb("fun f"); sbi(i); sb("() "); sbi(i); sb(";"); } for (int i = 0; i < n; i++) { want[i] = m == 0 ? 1 : m == 1 ? (i % 5 == 0 ? 12 : 0) : i % 4; if (want[i] > 3) { sb("i=0; while i<"); sbi(want[i]); sb(": { f"); sbi(i); sb("(); i=i+1; }"); } else for (int k = 0; k < want[i]; k++) { sb("f"); sbi(i); sb("();"); } } (void)clos; if (clos) sb("g = f0; g(); ");  if (clos) want[0]++;
  bool ok = nj_run(nj_src); sym_check(ok, "runs"); for (int i = 0; i < n; i++) { char nm[8] = "f"; int q = 1; if (i > 99) nm[q++] = (char)('0' + i / 100); if (i > 9) nm[q++] = (char)('0' + i / 10 % 10); nm[q++] = (char)('0' + i % 10); nm[q] = 0; long calls; int objs; entry_sum(nm, &calls, &objs); sym_check(calls == want[i], "the calls reported are the calls made"); sym_check(objs == 1 || (want[i] == 0 && objs == 0), "each function has one line"); } sym_cover("many"); nj_end(); }
static int occ(const char *s, const char *w) { int c = 0; size_t l = strlen(w); for (; *s; s++) if (*s == *w && !strncmp(s, w, l)) c++; return c; }
void t_diag_long(void) { // names and texts of any length, numbers of any size
  static const int N[] = {1, 2, 30, 62, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 1000}; int w = sym_choose("what", 7), n = N[sym_choose("len", 17)]; static char t[1100], want[1300], c; for (int i = 0; i < n; i++) t[i] = (char)('a' + i % 26); c = (char)sym_range("c", 'a', 'z'); t[n - 1] = c; t[n] = 0; if (n < 3) { t[0] = 'q'; t[n - 1] = 'q'; }
  static const char *const A[] = { "x = ", "fun ", "fun f(", "m = {", "x = o.", "x = '", "x = '" }, *const B[] = { ";", "() 1;", ") 1;", ": 1};", ";", "';", "\\n';" }; sb0(); sb(A[w]); sb(t); sb(B[w]); Error e; Error_Init(&e); int off; char *s = diagramStringAST(nj_src, &e, &off); sym_check(s != NULL && dot(s), "a graph"); if (!s) sym_end(); strcpy(want, "[label=\""); strcat(want, t); if (w == 6) strcat(want, "\\n"); strcat(want, "\"];\n"); sym_check(occ(s, want) == 1, "the whole name or text is the label of one node"); free(s); Error_Free(&e); sym_cover("long"); }
void t_diag_number(void) { static const char *const F[] = { "0", "9", "2147483647", "2147483648", "4294967296", "9223372036854775807", "0.5", "0.1", "2.675", "100000.0", "999999.0", "0.0", "0.25", "31.4159", "12345.6", "0.0001" }, *const L[] = { "0", "9", "2147483647", "2147483648", "4294967296", "9223372036854775807", "0.5", "0.1", "2.675", "100000", "999999", "0", "0.25", "31.4159", "12345.6", "0.0001" }; int k = sym_choose("num", 16), w = sym_choose("where", 4); static const char *const A[] = { "", "x = [", "f(y, ", "fun g(a = " }, *const B[] = { ";", "];", ");", ") a;" }; sb0(); sb(A[w]); sb(F[k]); sb(B[w]); Error e; Error_Init(&e); int off; char *s = diagramStringAST(nj_src, &e, &off); sym_check(s && dot(s), "a graph"); if (!s) sym_end(); char want[64] = "[label=\""; strcat(want, L[k]); strcat(want, "\"];\n"); sym_check(occ(s, want) == 1, "the number written"); free(s); Error_Free(&e); sym_cover("number"); }
void t_diag_many(void) { // graphs of many nodes
  static const int N[] = {1, 2, 9, 10, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 300}; int n = N[sym_choose("n", 19)], w = sym_choose("what", 4); sb0(); if (w == 3 && n > 200) sym_end(); int nodes = 1; if (w == 0) for (int i = 0; i < n; i++) { sb("x; "); nodes++; } else if (w == 1) { sb("x"); for (int i = 0; i < n; i++) { sb("+y"); nodes += 2; } sb(";"); nodes++; } else if (w == 2) { for (int i = 0; i < n; i++) { sb("if a: b; "); nodes += 3; } } else { for (int i = 0; i < n; i++) sb("("); sb("z"); for (int i = 0; i < n; i++) sb(")"); sb("; z;"); nodes += 2; }
  Error e; Error_Init(&e); int off; char *s = diagramStringAST(nj_src, &e, &off); sym_check(s != NULL, "drawn"); if (!s) sym_end(); sym_check(occ(s, "[label=\"") == nodes && occ(s, " -> ") == nodes - 1, "every node and edge once"); static bool d[1000]; memset(d, 0, sizeof d); for (const char *p = s; *p; p++) if (p[0] == '\t' && !strncmp(p, "\tnode_", 6)) { int v = 0; const char *q = p + 6; while (*q >= '0' && *q <= '9') v = v * 10 + (*q++ - '0'); if (*q == ' ' && q[1] == '[') { sym_check(v > 0 && v <= nodes && !d[v], "a name of its own for each node"); d[v] = true; } } free(s); Error_Free(&e); sym_cover("many"); }
// ---------------------------------------------------------------- C41
void t_io_cli(void) { // files that fail under the command line
  static const char *const TXT = "fun f() 1; x = {a: 'text'}; f(); print('hi');"; static const struct { int n; const char *v[7]; } A[] = { {4, {"noja", "--diagram-ast", "-i", TXT}}, {6, {"noja", "--diagram-ast", "-o", "res", "-i", TXT}}, {3, {"noja", "--diagram-ast", "p.noja"}}, {5, {"noja", "--diagram-ast", "-o", "res", "p.noja"}}, {6, {"noja", "-p", "-o", "res", "-i", TXT}}, {5, {"noja", "-p", "-o", "res", "p.noja"}}, {2, {"noja", "p.noja"}}, {3, {"noja", "-a", "p.asm"}}, {5, {"noja", "-p", "-o", "res", "bad.noja"}} };
  enum { NA = sizeof A / sizeof *A }; int k = sym_choose("command", NA); long n = 0; char *r0 = NULL; bool diag = k < 4, prof = k == 4 || k == 5; nsym_mkfile("p.noja", TXT, strlen(TXT)); nsym_mkfile("p.asm", ASMP, strlen(ASMP)); nsym_mkfile("bad.noja", "x = ;", 5); static char f[3000], f0[3000]; size_t fn0 = 0; long long b0 = 0;
  for (int round = 0; round < 4; round++) { nsym_mkfile("res", "old", 3); nsym_io_fail = 0; if (round == 2) { nsym_io_fail = 1 + sym_choose("k", (int)n); nsym_io_fails = sym_choose("many", 2) ? 1000000 : 1; } nsym_io_count = 0; nsym_io_op = 0; int rc = cli(A[k].n, (const char **)A[k].v); nsym_io_fail = 0; if (round == 0) n = nsym_io_count; size_t fn = nsym_readfile("res", f, sizeof f - 1); sym_check(fn < sizeof f, "harness: size"); f[fn] = 0; if (round == 0) { memcpy(f0, f, fn + 1); fn0 = fn; r0 = so; }
    bool good = k != 8, res = A[k].n > 4 && good; if (round != 2) sym_check(good ? rc == 0 && sen == 0 : rc == -1 && sen > 0, "without failures the command works as ever"); else { sym_check(rc == 0 || (rc == -1 && sen > 0), "it works, or it says that it doesn't"); if (rc != 0 && !diag && son > 0) sym_check(son <= 2 && !strncmp(so, "hi", son), "what was printed stays"); sym_cover(nsym_io_op == 'w' ? "write" : nsym_io_op == 'o' ? "open" : nsym_io_op == 'x' ? "close" : nsym_io_op == 'r' ? "read" : "other"); if (!good) sym_check(rc == -1, "an error remains one"); }
    if (rc == 0) { if (prof) sym_check(fn > 40 && has(f, "                   f - ") && has(f, " - 1 calls - ") && f[fn - 1] == '\n', "success means that the whole profile was written"); else if (res) sym_check(fn == fn0 && !memcmp(f, f0, fn), "success means that the whole result was written"); else sym_check(fn == 3 && !memcmp(f, "old", 3), "no other file is written"); sym_check((round == 2 && !diag ? !strncmp(r0, so, son) : !strcmp(so, r0)) && sen == 0, "and everything printed"); }
    if (so != r0) free(so); free(se); long long b = (long long)sym_live(); if (round == 1) b0 = b; if (round > 1) sym_check(b == b0, "every file is closed and every block given back"); } sym_out(n); free(r0); }
