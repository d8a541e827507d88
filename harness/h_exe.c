// C22 assembler, C23 executables.
#include "nj.h"
#include <lib/executable.h>
#include <lib/assembler/assemble.h>
#include <lib/utils/promise.h>
#include <lib/utils/bpalloc.h>
typedef struct { const char *name; Opcode op; const char *types; } OpI; // types: i=int, x=index, f=float, s=string
static const OpI OI[] = {
  {"NOPE", OPCODE_NOPE, ""}, {"POS", OPCODE_POS, ""}, {"NEG", OPCODE_NEG, ""}, {"NOT", OPCODE_NOT, ""}, {"ADD", OPCODE_ADD, ""}, {"SUB", OPCODE_SUB, ""}, {"MUL", OPCODE_MUL, ""}, {"DIV", OPCODE_DIV, ""}, {"MOD", OPCODE_MOD, ""}, {"EQL", OPCODE_EQL, ""}, {"NQL", OPCODE_NQL, ""},
  {"LSS", OPCODE_LSS, ""}, {"GRT", OPCODE_GRT, ""}, {"LEQ", OPCODE_LEQ, ""}, {"GEQ", OPCODE_GEQ, ""}, {"NLB", OPCODE_NLB, ""}, {"STP", OPCODE_STP, ""}, {"ASS", OPCODE_ASS, "s"}, {"POP", OPCODE_POP, "i"}, {"CALL", OPCODE_CALL, "ii"}, {"SELECT", OPCODE_SELECT, ""}, {"SELECT2", OPCODE_SELECT2, ""},
  {"INSERT", OPCODE_INSERT, ""}, {"INSERT2", OPCODE_INSERT2, ""}, {"PUSHINT", OPCODE_PUSHINT, "i"}, {"PUSHFLT", OPCODE_PUSHFLT, "f"}, {"PUSHSTR", OPCODE_PUSHSTR, "s"}, {"PUSHVAR", OPCODE_PUSHVAR, "s"}, {"PUSHTRU", OPCODE_PUSHTRU, ""}, {"PUSHFLS", OPCODE_PUSHFLS, ""}, {"PUSHNNE", OPCODE_PUSHNNE, ""},
  {"PUSHFUN", OPCODE_PUSHFUN, "xis"}, {"PUSHLST", OPCODE_PUSHLST, "i"}, {"PUSHMAP", OPCODE_PUSHMAP, "i"}, {"PUSHTYP", OPCODE_PUSHTYP, ""}, {"PUSHNNETYP", OPCODE_PUSHNNETYP, ""}, {"RETURN", OPCODE_RETURN, "i"}, {"EXIT", OPCODE_EXIT, ""}, {"JUMPIFANDPOP", OPCODE_JUMPIFANDPOP, "x"}, {"JUMPIFNOTANDPOP", OPCODE_JUMPIFNOTANDPOP, "x"}, {"JUMP", OPCODE_JUMP, "x"}, {"CHECKTYPE", OPCODE_CHECKTYPE, "is"} };
#define NOI ((int)(sizeof OI / sizeof OI[0]))
typedef struct { const OpI *oi; long long i[3]; double f[3]; char s[3][8]; int label; int off; } EI; // label>=0: index operand refers to that instruction
static EI ei[64]; static int nei;
static void same_exe(Executable *x, int n, bool offs) {
  for (int k = 0; k < n; k++) { Opcode op; Operand o[3]; int oc = 3; bool ok = Executable_Fetch(x, k, &op, o, &oc); sym_check(ok, "every instruction can be fetched"); if (!ok) return; const char *t = ei[k].oi->types; sym_check(op == ei[k].oi->op && oc == (int)strlen(t), "the opcode and the number of operands");
    for (int j = 0; j < oc && t[j]; j++) switch (t[j]) { case 'i': sym_check(o[j].type == OPTP_INT && o[j].as_int == ei[k].i[j], "integer operand"); break; case 'x': sym_check(o[j].type == OPTP_IDX && o[j].as_int == ei[k].i[j], "index operand"); break; case 'f': sym_check(o[j].type == OPTP_FLOAT && nj_sameflt(o[j].as_float, ei[k].f[j]), "float operand"); break; default: sym_check(o[j].type == OPTP_STRING && !strcmp(o[j].as_string, ei[k].s[j]), "string operand"); }
    if (offs) sym_check(Executable_GetInstrOffset(x, k) == ei[k].off && Executable_GetInstrLength(x, k) == (int)strlen(ei[k].oi->name), "the instruction's place in the source"); else sym_check(Executable_GetInstrOffset(x, k) == -1, "no source, no offset"); }
  sym_check(!Executable_Fetch(x, n, 0, 0, 0), "nothing after the last instruction"); sym_check(Executable_GetInstrOffset(x, n) == -1 && Executable_GetInstrOffset(x, -1) == -1 && Executable_GetInstrLength(x, n) == -1, "no offsets outside"); }
// ---------------------------------------------------------------- C23
static Operand opi(long long v) { return (Operand) { .type = OPTP_INT, .as_int = v }; }
static void fill(EI *e, const char *nm) { const char *t = e->oi->types; e->label = -1; for (int j = 0; t[j]; j++) { if (t[j] == 'i' || t[j] == 'x') e->i[j] = sym_i64(nm); else if (t[j] == 'f') e->f[j] = sym_f64(nm); else { sym_bytes(e->s[j], 2, nm); e->s[j][2] = 0; } } }
static int ops_of(EI *e, Operand *o) { const char *t = e->oi->types; int j; for (j = 0; t[j]; j++) { if (t[j] == 'i') o[j] = opi(e->i[j]); else if (t[j] == 'x') o[j] = (Operand) { .type = OPTP_IDX, .as_int = e->i[j] }; else if (t[j] == 'f') o[j] = (Operand) { .type = OPTP_FLOAT, .as_float = e->f[j] }; else o[j] = (Operand) { .type = OPTP_STRING, .as_string = e->s[j] }; } return j; }
static Executable *build_exe(BPAlloc *al, int n, Error *err) { ExeBuilder *b = ExeBuilder_New(al); sym_check(b != 0, "builder"); if (!b) sym_end(); for (int k = 0; k < n; k++) { Operand o[3]; int c = ops_of(&ei[k], o); sym_check(ExeBuilder_InstrCount(b) == k, "count"); bool ok = ExeBuilder_Append(b, err, ei[k].oi->op, o, c, k, 1); sym_check(ok, "a well-formed instruction is accepted"); } Executable *x = ExeBuilder_Finalize(b, err); sym_check(x != 0 && !err->occurred, "finalised"); if (!x) sym_end(); return x; }
void t_exe_build(void) {
  Error err; Error_Init(&err); BPAlloc *al = BPAlloc_Init(-1); int n = 2; for (int k = 0; k < n; k++) { ei[k].oi = &OI[sym_choose("op", NOI)]; fill(&ei[k], k ? "b" : "a"); }
  Executable *x = build_exe(al, n, &err), *y = build_exe(al, n, &err); BPAlloc_Free(al); same_exe(x, n, false); bool nan = false; for (int k = 0; k < n; k++) for (int j = 0; ei[k].oi->types[j]; j++) if (ei[k].oi->types[j] == 'f' && ei[k].f[j] != ei[k].f[j]) nan = true; if (!nan) sym_check(Executable_Equiv(x, y, 0, "") && Executable_Equiv(x, x, 0, ""), "an executable is equivalent to itself and to its twin");
  Executable *c = Executable_Copy(x); Executable_Free(x); same_exe(c, n, false); sym_cover("built"); Executable_Free(c); Executable_Free(y); Error_Free(&err); }
void t_exe_equiv(void) { // equivalent exactly when all instructions and operands are equal
  Error err; Error_Init(&err); BPAlloc *al = BPAlloc_Init(-1); int m = 1 + sym_choose("m", 2), o1 = sym_choose("op", NOI), o2 = sym_choose("same", 2) ? o1 : (o1 + 1 + sym_choose("d", 3)) % NOI; static EI e2; ei[0].oi = &OI[o1]; fill(&ei[0], "a"); ei[1].oi = &OI[0]; ei[1].label = -1; Executable *x = build_exe(al, m, &err);
  EI e1 = ei[0]; ei[0].oi = &OI[o2]; fill(&ei[0], "b"); e2 = ei[0]; int m2 = 1 + sym_choose("m2", 2); Executable *y = build_exe(al, m2, &err); bool eq = o1 == o2 && m == m2; if (o1 == o2) for (int j = 0; OI[o1].types[j]; j++) { char t = OI[o1].types[j]; if (t == 'f') eq = eq && e1.f[j] == e2.f[j]; else if (t == 's') eq = eq && !strcmp(e1.s[j], e2.s[j]); else eq = eq && e1.i[j] == e2.i[j]; }
  sym_check(Executable_Equiv(x, y, 0, "") == eq, "equivalence means equal instructions and operands"); sym_check(Executable_Equiv(y, x, 0, "") == eq, "equivalence is symmetric"); sym_cover(eq ? "equal" : "different"); Executable_Free(x); Executable_Free(y); BPAlloc_Free(al); Error_Free(&err); }
void t_exe_many(void) { // long code and data, operands delivered through promises
  static const int N[] = {0, 1, 3, 17, 40, 63}; Error err; Error_Init(&err); BPAlloc *al = BPAlloc_Init(-1); int n = N[sym_choose("n", 6)], rot = sym_choose("rot", 7), late = sym_choose("late", 3), sl = sym_choose("strlen", 3); long long v = sym_i64("v"); Promise *p[4]; for (int k = 0; k < 4; k++) { p[k] = Promise_New(al, sizeof(long long)); sym_check(p[k] != 0, "promise"); } ExeBuilder *b = ExeBuilder_New(al); long long pv[4]; for (int k = 0; k < 4; k++) pv[k] = v + 3 * k; if (late != 1) Promise_Resolve(p[1], &pv[1], sizeof(long long));
  for (int k = 0; k < n; k++) { static const int W[] = {24, 26, 40, 31, 0, 19, 41}; EI *e = &ei[k]; memset(e, 0, sizeof *e); e->oi = &OI[W[(k + rot) % 7]]; const char *t = e->oi->types; Operand o[3]; int j; for (j = 0; t[j]; j++) if (t[j] == 'i') { e->i[j] = v ^ (k * 5 + j); o[j] = opi(e->i[j]); } else if (t[j] == 'x') { e->i[j] = pv[k & 3]; o[j] = (Operand) { .type = OPTP_PROMISE, .as_promise = p[k & 3] }; } else { int q = sl == 0 ? 0 : sl == 1 ? 1 + k % 5 : 7; for (int z = 0; z < q; z++) e->s[j][z] = (char)('a' + (k + z) % 26); e->s[j][q] = 0; o[j] = (Operand) { .type = OPTP_STRING, .as_string = e->s[j] }; }
    bool ok = ExeBuilder_Append(b, &err, e->oi->op, o, j, 0, 1); sym_check(ok, "accepted"); }
  bool used = false; for (int k = 0; k < n; k++) if (strchr(ei[k].oi->types, 'x') && (k & 3) != 1) used = true; if (late == 2 && used) { Executable *x = ExeBuilder_Finalize(b, &err); sym_check(!x && err.occurred, "an operand that was never provided is an error"); sym_cover("unfulfilled"); BPAlloc_Free(al); Error_Free(&err); return; }
  for (int k = 0; k < 4; k++) if (late == 1 || k != 1) Promise_Resolve(p[k], &pv[k], sizeof(long long)); Executable *x = ExeBuilder_Finalize(b, &err); sym_check(x != 0, "finalised"); if (!x) sym_end(); for (int k = 0; k < 4; k++) Promise_Free(p[k]); BPAlloc_Free(al); same_exe(x, n, false); sym_cover("many"); Executable_Free(x); Error_Free(&err); }
void t_exe_reject(void) { // wrong number or kind of operands
  Error err; Error_Init(&err); BPAlloc *al = BPAlloc_Init(-1); ExeBuilder *b = ExeBuilder_New(al); const OpI *oi = &OI[sym_choose("op", NOI)]; int c = sym_choose("count", 5); Operand o[4]; char k[5] = {0}; for (int j = 0; j < c; j++) { int t = sym_choose("kind", 3 + (j == 0)); k[j] = "ifsx"[t]; o[j] = t == 0 ? opi(sym_i64("i")) : t == 1 ? (Operand) { .type = OPTP_FLOAT, .as_float = 1.5 } : t == 2 ? (Operand) { .type = OPTP_STRING, .as_string = "q" } : (Operand) { .type = OPTP_IDX, .as_int = 3 }; }
  bool ok = ExeBuilder_Append(b, &err, oi->op, o, c, 0, 1); sym_check(ok == (strcmp(k, oi->types) == 0), "exactly the instruction's operands are accepted"); sym_check(ok == !err.occurred, "a refusal is an error"); sym_cover(ok ? "accepted" : "refused"); BPAlloc_Free(al); Error_Free(&err); }
void t_exe_names(void) { // names of opcodes
  char s[24]; int k = sym_choose("op", NOI), m = sym_choose("m", 4); strcpy(s, OI[k].name); int n = (int)strlen(s); if (m == 1) { s[n - 1] = (char)sym_u8("c"); } else if (m == 2) s[n++] = (char)sym_u8("c"); else if (m == 3) s[0] = (char)sym_u8("c"); Opcode op = 999; bool ok = Executable_GetOpcodeBinaryFromName(s, n, &op); int want = -1; for (int i = 0; i < NOI; i++) if (strlen(OI[i].name) == (size_t)n && !memcmp(OI[i].name, s, n)) want = i; for (int i = 0; i < n; i++) sym_assume(s[i] != 0);
  sym_check(ok == (want >= 0), "exactly the opcode names exist"); if (ok && want >= 0) { sym_check(op == OI[want].op, "name to opcode"); const char *b = Executable_GetOpcodeName(op); sym_check(b && !strcmp(b, OI[want].name), "opcode to name"); sym_cover("known"); } else sym_cover("unknown"); }
// ---------------------------------------------------------------- C22
static const char *const WS[] = { " ", "\n", "\t ", " \r\n  " };
// Listings written in every layout assemble to exactly the instructions they name.
void t_asm_faithful(void) {
  int n = (int)sym_param("n", 2), w = sym_choose("layout", 4), tail = sym_choose("tail", 2); sb0(); if (w == 3) sb("\n"); nei = 0; memset(ei, 0, sizeof ei); char q[3]; static const char ESC[] = "\n\t\r\"\\"; static const char EC[] = "ntr\"\\";
  for (int k = 0; k < n; k++) { EI *e = &ei[k]; e->oi = &OI[k == 0 ? sym_choose("op", NOI) : k == 1 ? (int)(24 + sym_choose("op2", 9)) % NOI : 40]; if (sym_choose("label", 2)) { sbc('l'); sbi(k); if (w) sb(WS[w]); sbc(':'); if (w != 0) sb(WS[w]); e->label = 1; } else e->label = 0; e->off = nj_sn; sb(e->oi->name); const char *t = e->oi->types;
    for (int j = 0; t[j]; j++) { sb(j ? (w & 1 ? " , " : ",") : WS[w]); if (t[j] == 'i') { int f = k ? 3 : sym_choose("int", 4); char d0 = (char)sym_range("d", '0', '9'), d1 = (char)sym_range("d", '0', '9'); long long v = (d0 - '0') * 10 + (d1 - '0'); if (f == 1) { sbc('-'); v = -v; } if (f == 2) sbc('+'); sbc(d0); sbc(d1); if (f == 3) { sb("999999999999"); v = v * 1000000000000LL + 999999999999LL; } e->i[j] = v; }
      else if (t[j] == 'x') { e->i[j] = sym_choose("target", n); sbc('l'); sbi(e->i[j]); }
      else if (t[j] == 'f') { char d0 = (char)sym_range("d", '0', '9'); int f = sym_choose("flt", 3); if (f == 1) sbc('-'); sbc(d0); sb(".5"); if (f == 2) sb("0"); double v = (double)(d0 - '0') + 0.5; e->f[j] = f == 1 ? -v : v; }
      else { int f = sym_choose("str", 4); sbc('"'); q[0] = 0; if (f == 1) { int x = sym_choose("esc", 5); sbc('\\'); sbc(EC[x]); e->s[j][0] = ESC[x]; e->s[j][1] = 0; } else if (f == 2) { char c = (char)sym_u8("c"); sym_assume(c != 0 && c != '"' && c != '\\'); sbc(c); sb(";"); e->s[j][0] = c; e->s[j][1] = ';'; e->s[j][2] = 0; } else if (f == 3) { char c = (char)sym_u8("c"); sym_assume(c != 0 && c != '"' && c != '\\'); sb("\\\\"); sbc(c); sb("\\\""); e->s[j][0] = '\\'; e->s[j][1] = c; e->s[j][2] = '"'; e->s[j][3] = 0; } sbc('"'); } }
    if (k + 1 < n || tail) { if (w & 1) sb(" "); sbc(';'); } if (w) sb(WS[w]); }
  bool unres = false; for (int k = 0; k < n; k++) for (int j = 0; ei[k].oi->types[j]; j++) if (ei[k].oi->types[j] == 'x' && !ei[ei[k].i[j]].label) unres = true;
  Error err; Error_Init(&err); Source *src = Source_FromString("a", nj_src, nj_sn, &err); int off = -2; Executable *x = assemble(src, &err, &off); if (unres) { sym_check(!x && err.occurred, "a label that's never defined is an error"); sym_cover("unresolved"); } else { sym_check(x != 0 && !err.occurred, "a correct listing assembles"); if (x) { same_exe(x, n, true); sym_cover("assembled"); } } if (x) Executable_Free(x); Source_Free(src); Error_Free(&err); }
// Token sequences against a reference acceptor.
static const char *const AT[] = { "NOPE", "POP", "JUMP", "CALL", "PUSHSTR", "a", "b", "1", "-2", "1.5", "\"s\"", ":", ";", "," };
enum { A_NOPE, A_POP, A_JUMP, A_CALL, A_PUSHSTR, A_a, A_b, A_1, A_m2, A_flt, A_str, A_col, A_semi, A_com, NAT };
static bool a_id(int t) { return t <= A_b; }
static bool a_accept(const int *t, int n, int *count) {
  int i = 0, defs[8], nd = 0, uses[8], nu = 0; *count = 0; while (i < n) { if (!a_id(t[i])) return false; int op = t[i++]; if (i < n && t[i] == A_col) { for (int k = 0; k < nd; k++) if (defs[k] == op) return false; defs[nd++] = op; i++; if (i >= n || !a_id(t[i])) return false; op = t[i++]; } if (op > A_PUSHSTR) return false; char ty[9]; int c = 0;
    if (i < n && t[i] != A_semi) for (;;) { if (i >= n) return false; int o = t[i++]; if (o == A_col || o == A_semi || o == A_com) return false; if (c == 8) return false; if (a_id(o)) uses[nu++] = o; ty[c++] = a_id(o) ? 'p' : o == A_str ? 's' : o == A_flt ? 'f' : 'i'; if (i == n || t[i] == A_semi) break; if (t[i++] != A_com) return false; }
    if (i < n) i++; const char *w = op == A_NOPE ? "" : op == A_POP ? "i" : op == A_JUMP ? "x" : op == A_CALL ? "ii" : "s"; if (c != (int)strlen(w)) return false; for (int k = 0; k < c; k++) if (!(ty[k] == w[k] || (ty[k] == 'p' && w[k] != 's'))) return false; ++*count; }
  for (int k = 0; k < nu; k++) { bool d = false; for (int z = 0; z < nd; z++) if (defs[z] == uses[k]) d = true; if (!d) return false; } return true; }
void t_asm_tokens(void) {
  int n = (int)sym_param("n", 4), t[8], first = (int)sym_param("first", -1), from = (int)sym_param("from", 0); sb0(); for (int i = 0; i < n; i++) { t[i] = i == 0 && first >= 0 ? first : sym_choose("tok", NAT); sb(AT[t[i]]); sbc(' '); } (void)from; int c; bool acc = a_accept(t, n, &c); Error err; Error_Init(&err); Source *src = Source_FromString("a", nj_src, nj_sn, &err); int off = -2; Executable *x = assemble(src, &err, &off);
  sym_check((x != 0) == acc, "exactly the well-formed listings are accepted"); sym_check((x == 0) == err.occurred, "a refusal is an error"); if (x) { sym_check(!Executable_Fetch(x, c, 0, 0, 0) && (c == 0 || Executable_Fetch(x, c - 1, 0, 0, 0)), "as many instructions as statements"); sym_cover("accepted"); Executable_Free(x); } else { sym_check(off >= -1 && off <= nj_sn, "the error's place is inside of the source"); sym_cover("refused"); } Source_Free(src); Error_Free(&err); }
void t_asm_bytes(void) { // arbitrary bytes
  int n = (int)sym_param("n", 4), pre = (int)sym_param("pre", 0); static const char *PR[] = { "", "POP", "NOPE ;", "a:NOPE;JUMP ", "PUSHSTR \"", "PUSHFLT 1", "PUSHINT -", "CALL 9223372036854775", "a" }; char b[8]; sym_bytes(b, n, "b"); sb0(); sb(PR[pre]); for (int i = 0; i < n; i++) sbc(b[i]);
  Error err; Error_Init(&err); Source *src = Source_FromString("a", nj_src, nj_sn, &err); if (!src) sym_end(); int off = -2; Executable *x = assemble(src, &err, &off); sym_check((x == 0) == err.occurred, "either an executable or an error"); if (x) { sym_cover("accepted"); Executable_Free(x); } else { sym_check(off >= -1 && off <= nj_sn, "the error's place is inside of the source"); sym_cover("refused"); } Source_Free(src); Error_Free(&err); }
void t_asm_long(void) { // many labels, long strings, big numbers
  int m = sym_choose("mode", 4), n = 1 + sym_choose("n", 40); Error err; Error_Init(&err); sb0(); if (m == 0) { for (int i = 0; i < n; i++) { sb("L"); sbi(i * 7919 % 1000); sb(": JUMP L"); sbi((n - 1 - i) * 7919 % 1000); sb(";\n"); } } else if (m == 1) { sb("PUSHSTR \""); for (int i = 0; i < 1000 + n; i++) sbc('x'); sb("\";"); } else if (m == 2) { sb("PUSHINT "); for (int i = 0; i < n; i++) sbc((char)('0' + (i == 0 ? 9 : 2))); } else { for (int i = 0; i < n; i++) sb("AB"); sb(" ;"); }
  Source *src = Source_FromString("a", nj_src, nj_sn, &err); int off; Executable *x = assemble(src, &err, &off); sym_check((x == 0) == err.occurred, "either an executable or an error");
  if (m == 0 && x) { for (int i = 0; i < n; i++) { Operand o[3]; int oc = 3; Opcode op; bool ok = Executable_Fetch(x, i, &op, o, &oc); sym_check(ok && op == OPCODE_JUMP && o[0].as_int == n - 1 - i, "labels resolve to their instruction"); } sym_cover("labels"); } else if (m == 0) sym_check(0, "many labels"); else if (m == 1) { if (x) { Operand o[3]; int oc = 3; Opcode op; bool ok = Executable_Fetch(x, 0, &op, o, &oc); sym_check(ok && strlen(o[0].as_string) == (size_t)(1000 + n), "a long string is kept"); sym_cover("string"); } else { sym_check(n > 20, "a string of 1K fits"); sym_cover("too long"); } } else if (m == 2) { sym_check((x != 0) == (n < 20), "integers are accepted up to the representable ones"); sym_cover("number"); } else { sym_check(!x, "unknown opcode"); sym_cover("unknown"); }
  if (x) Executable_Free(x); Source_Free(src); Error_Free(&err); }
// Labels of every length, also ones that differ only in their last character or of which one is a prefix of the other.
void t_asm_labels(void) {
  static const int LN[] = {1, 2, 3, 5, 7, 8, 9, 10, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 127, 128, 129, 255, 256, 257}; int n = LN[sym_choose("len", 25)], form = sym_choose("form", 4), ord = sym_choose("order", 3), use = sym_choose("use", 4); static char l[3][300]; int ln[3];
  for (int i = 0; i < n; i++) l[0][i] = l[1][i] = l[2][i] = (char)(i % 7 == 5 ? '_' : i % 5 == 3 && i ? '0' + i % 10 : 'a' + i % 26); ln[0] = ln[1] = ln[2] = n; if (form == 0) { if (n == 1) sym_end(); ln[1] = n - 1; } else if (form == 1) { char c = (char)sym_range("c", 'a', 'z'); sym_assume(c != l[0][n - 1]); l[1][n - 1] = c; } else if (form == 2) { char c = (char)sym_range("c", 'a', 'z'); int p = n / 2; sym_assume(c != l[0][p]); l[1][p] = c; } else { l[1][0] = 'Z'; } l[2][ln[2]++] = 'q';
  static const int O[3][3] = {{0, 1, 2}, {2, 1, 0}, {1, 0, 2}}; int at[3]; sb0(); sb("JUMP "); sbn(l[use & 1], ln[use & 1]); sb("; "); for (int k = 0; k < 3; k++) { int i = O[ord][k]; at[i] = k + 1; sbn(l[i], ln[i]); sb(": "); if (use < 2) sb("NOPE; "); else { sb("JUMP "); int t = O[ord][(k + use) % 3]; sbn(l[t], ln[t]); sb("; "); } } sb("JUMP "); sbn(l[2], ln[2]); sb(";");
  Error err; Error_Init(&err); Source *src = Source_FromString("a", nj_src, nj_sn, &err); int off = -2; Executable *x = assemble(src, &err, &off); sym_check(x != 0 && !err.occurred, "different labels don't collide"); if (!x) sym_end(); Operand o[3]; int oc = 3; Opcode op; bool ok = Executable_Fetch(x, 0, &op, o, &oc); sym_check(ok && op == OPCODE_JUMP && o[0].as_int == at[use & 1], "a label stands for its own instruction"); oc = 3; ok = Executable_Fetch(x, 4, &op, o, &oc); sym_check(ok && o[0].as_int == at[2], "a label stands for its own instruction");
  if (use >= 2) for (int k = 0; k < 3; k++) { oc = 3; ok = Executable_Fetch(x, k + 1, &op, o, &oc); sym_check(ok && op == OPCODE_JUMP && o[0].as_int == at[O[ord][(k + use) % 3]], "a label stands for its own instruction"); } sym_cover(form == 0 ? "prefix" : "differ"); Executable_Free(x); Source_Free(src); Error_Free(&err);
}
// Numbers: every integer around the limits of 64 bits, floats with any number of decimals.
void t_asm_number(void) {
  static const char *F[] = { "0.1", "0.3", "0.7", "2.675", "123456789.987654321", "0.30000000000000004", "9007199254740993.0", "4.35", "1.1", "100.01", "0.000001", "99999999999999999999999.0", "0.0", "1.7976931348623157", "3.14159265358979323846", "0.0000000000000000000000000000000000000000001" }; static const double V[] = { 0.1, 0.3, 0.7, 2.675, 123456789.987654321, 0.30000000000000004, 9007199254740993.0, 4.35, 1.1, 100.01, 0.000001, 99999999999999999999999.0, 0.0, 1.7976931348623157, 3.14159265358979323846, 0.0000000000000000000000000000000000000000001 };
  int flt = sym_choose("kind", 2), sg = sym_choose("sign", 3), pad = sym_choose("zeros", 3); static const char *S[] = { "", "-", "+" }; unsigned long long m = 0; double want = 0; bool fit = true; sb0(); sb(flt ? "PUSHFLT " : "PUSHINT "); sb(S[sg]); if (pad) sb(pad == 1 ? "0" : "000000000000000000000000");
  if (flt) { int k = sym_choose("flt", 16); sb(F[k]); want = sg == 1 ? -V[k] : V[k]; }
  else { static const char *P[] = { "", "9223372036854775", "922337203685477", "1844674407370955", "21474836", "42949672", "9999999999999999" }; int k = sym_choose("prefix", 7); unsigned long long v = 0; for (const char *q = P[k]; *q; q++) v = v * 10 + (unsigned long long)(*q - '0'); sb(P[k]); unsigned long long w = v; bool over = k == 3; for (int i = 0; i < 3; i++) { char d = (char)sym_range("d", '0', '9'); sbc(d); w = w * 10 + (unsigned)(d - '0'); } if (k == 2) { sb("8"); w = w * 10 + 8; } if (k == 3) sb("0"); unsigned long long lim = (1ULL << 63) - (sg == 1 ? 0 : 1); fit = !over && w <= lim; m = w; if (sg == 1) m = 0 - m; }
  Error err; Error_Init(&err); Source *src = Source_FromString("a", nj_src, nj_sn, &err); int off = -2; Executable *x = assemble(src, &err, &off); sym_check((x != 0) == fit && err.occurred == !fit, "exactly the numbers that fit are accepted"); if (x) { Operand o[3]; int oc = 3; Opcode op; bool ok = Executable_Fetch(x, 0, &op, o, &oc); sym_check(ok && oc == 1, "one operand"); if (ok) { if (flt) sym_check(o[0].type == OPTP_FLOAT && nj_sameflt(o[0].as_float, want), "a float operand is the nearest double"); else sym_check(o[0].type == OPTP_INT && o[0].as_int == (long long)m, "an integer operand is the number written"); } sym_cover(flt ? "float" : "integer"); Executable_Free(x); } else { sym_check(off >= 0 && off <= nj_sn, "the error's place is inside of the source"); sym_cover("out of range"); } Source_Free(src); Error_Free(&err); }
// Amounts of code and of string data beyond any internal block.
void t_exe_big(void) {
  static const int SL[] = {1, 7, 60, 255, 1000, 4000, 4096, 5000}, NI[] = {1, 2, 5, 9, 33, 64, 65, 100, 257, 300}; Error err; Error_Init(&err); BPAlloc *al = BPAlloc_Init(-1); int s = SL[sym_choose("strlen", 8)], n = NI[sym_choose("n", 10)]; if ((long)s * n > 40000) sym_end(); static char t[5100]; static char want[300][2]; char c = (char)sym_u8("c"); sym_assume(c != 0); ExeBuilder *b = ExeBuilder_New(al); sym_check(b != 0, "builder"); if (!b) sym_end();
  for (int i = 0; i < s; i++) t[i] = (char)('a' + i % 26); t[s] = 0; for (int k = 0; k < n; k++) { int m = s - (s > 8 ? k % 7 : 0); char z = t[m]; t[m] = 0; want[k][0] = (char)('A' + k % 26); want[k][1] = k % 3 == 2 ? c : (char)('a' + k % 25); t[0] = want[k][0]; char l = t[m - 1]; if (m > 1) t[m - 1] = want[k][1]; Operand o[3]; int oc; Opcode op; if (k % 2) { op = OPCODE_PUSHSTR; o[0] = (Operand) { .type = OPTP_STRING, .as_string = t }; oc = 1; } else { op = OPCODE_PUSHFUN; o[0] = (Operand) { .type = OPTP_IDX, .as_int = k }; o[1] = opi(c + k); o[2] = (Operand) { .type = OPTP_STRING, .as_string = t }; oc = 3; } bool ok = ExeBuilder_Append(b, &err, op, o, oc, k, 1); sym_check(ok, "accepted"); t[m - 1] = l; t[m] = z; }
  sym_check(ExeBuilder_InstrCount(b) == n, "count"); Executable *x = ExeBuilder_Finalize(b, &err); sym_check(x != 0, "finalised"); if (!x) sym_end(); BPAlloc_Free(al);
  for (int k = 0; k < n; k++) { int m = s - (s > 8 ? k % 7 : 0); Operand o[3]; int oc = 3; Opcode op; bool ok = Executable_Fetch(x, k, &op, o, &oc); sym_check(ok && op == (k % 2 ? OPCODE_PUSHSTR : OPCODE_PUSHFUN) && oc == (k % 2 ? 1 : 3), "every instruction can be fetched"); if (!ok) sym_end(); if (k % 2 == 0) sym_check(o[0].as_int == k && o[1].as_int == c + k, "integer operand"); const char *q = o[oc - 1].as_string; sym_check(q[0] == want[k][0] && (m < 2 || q[m - 1] == want[k][1]) && q[m] == 0, "a string operand's ends"); if (m > 3) sym_check(!memcmp(q + 1, t + 1, m - 2), "a string operand's text"); }
  sym_check(!Executable_Fetch(x, n, 0, 0, 0), "nothing after the last instruction"); sym_cover("big"); Executable_Free(x); Error_Free(&err);
}
// Strings whose escapes lie anywhere: kept whole up to what a listing's string can hold, refused beyond, never cut.
void t_asm_string(void) {
  static const int N[] = {1, 2, 3, 100, 511, 512, 1000, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1030, 1200, 1600, 2047, 2048, 2049, 3000}, P[] = {0, 1, 2, 500, 511, 600, 1000, 1020, 1021, 1022, 1023, 1024, 1025}; int n = N[sym_choose("n", 23)], p = P[sym_choose("at", 13)], more = sym_choose("more", 3); if (p >= n) sym_end(); static char w[3100]; static const char EV[] = "\n\t\r\"\\", EC[] = "ntr\"\\"; int e = sym_choose("esc", 5);
  sb0(); sb("PUSHSTR \""); for (int i = 0; i < n; i++) { if (i == p || (more == 1 && i == p + 1) || (more == 2 && i == n - 1)) { sbc('\\'); sbc(EC[e]); w[i] = EV[e]; } else { w[i] = (char)('a' + i % 26); if (i == n / 2) { char c = (char)sym_u8("c"); sym_assume(c != 0 && c != '"' && c != '\\'); w[i] = c; } sbc(w[i]); } } sb("\"; PUSHTRU;");
  Error err; Error_Init(&err); Source *src = Source_FromString("a", nj_src, nj_sn, &err); if (!src) sym_end(); int off = -2; Executable *x = assemble(src, &err, &off); sym_check((x == 0) == err.occurred, "either an executable or an error"); if (x) { Operand o[3]; int oc = 3; Opcode op; bool ok = Executable_Fetch(x, 0, &op, o, &oc); sym_check(ok && op == OPCODE_PUSHSTR && oc == 1 && o[0].type == OPTP_STRING && (int)strlen(o[0].as_string) == n && !memcmp(o[0].as_string, w, n), "a string operand is the text written"); oc = 3; ok = Executable_Fetch(x, 1, &op, o, &oc); sym_check(ok && op == OPCODE_PUSHTRU, "and what follows it is untouched"); sym_cover("kept"); Executable_Free(x); } else { sym_check(n > 1000, "a string of a thousand characters fits"); sym_check(off >= -1 && off <= nj_sn, "the error's place is inside of the source"); sym_cover("too long"); } Source_Free(src); Error_Free(&err); }
