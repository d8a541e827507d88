// C20 parser, C21 literals and names, C31 layout.
#include "nj.h"
#include <lib/compiler/compile.h>
#include <ctype.h>
// ---------------------------------------------------------------- reference grammar (over tokens), and what is meaningful
enum { K_OP = 1, K_CP, K_OS, K_CS, K_OC, K_CC, K_COMMA, K_COLON, K_SEMI, K_DOT, K_ARW, K_ADD, K_MUL, K_ASS, K_BAR, K_QM, K_NOT, K_IF, K_ELSE, K_WHILE, K_DO, K_FUN, K_RET, K_BRK, K_INT, K_ID, K_STR, K_NONE, K_EQ, K_OR, K_BAD, K_END };
static const struct { const char *t; int k; } TK[] = { {"(", K_OP}, {")", K_CP}, {"[", K_OS}, {"]", K_CS}, {"{", K_OC}, {"}", K_CC}, {",", K_COMMA}, {":", K_COLON}, {";", K_SEMI}, {".", K_DOT}, {"->", K_ARW}, {"+", K_ADD}, {"*", K_MUL}, {"=", K_ASS}, {"|", K_BAR}, {"?", K_QM}, {"not", K_NOT}, {"if", K_IF}, {"else", K_ELSE}, {"while", K_WHILE}, {"do", K_DO}, {"fun", K_FUN}, {"return", K_RET}, {"break", K_BRK}, {"1", K_INT}, {"a", K_ID}, {"'s'", K_STR},
  {"none", K_NONE}, {"==", K_EQ}, {"or", K_OR}, {"$", K_BAD} };
#define NTK ((int)(sizeof TK / sizeof TK[0]))
#define NMAIN 27 // the first ones are enough for most positions
typedef struct N_ { int k; struct N_ *a, *b, *next; } N_; // expressions: K_INT atom, K_ID, K_COMMA pair, K_ASS, K_ADD any operator, K_OP call, K_DOT select, K_ARW, K_OS list of children, K_FUN function body
static int tk[64], tkoff[65], ntk, tp, badtok; static N_ pool[256]; static int npool;
static N_ *mk(int k, N_ *a, N_ *b) { if (npool == 256) { sym_check(0, "harness: pool"); sym_end(); } N_ *n = &pool[npool++]; n->k = k; n->a = a; n->b = b; n->next = 0; return n; }
static int cur(void) { return tp < ntk ? tk[tp] : K_END; }
static N_ *bad(void) { if (badtok < 0) badtok = tp; return 0; }
static bool eat(int k) { if (cur() != k) { bad(); return false; } tp++; return true; }
static N_ *rexpr(int tuples, int assigns, int minp); static N_ *rstmt(void);
static int prec(int k) { switch (k) { case K_ASS: return 0; case K_BAR: return 1; case K_OR: return 2; case K_EQ: return 4; case K_ADD: return 5; case K_MUL: return 6; case K_COMMA: return 7; } return -1; }
static N_ *rfun(void) { // fun NAME ( params ) statement
  if (!eat(K_FUN) || !eat(K_ID) || !eat(K_OP)) return 0; N_ *ch = 0;
  if (cur() == K_CP) tp++; else for (;;) { if (!eat(K_ID)) return 0; if (cur() == K_COLON) { tp++; N_ *t = rexpr(0, 0, 0); if (!t) return 0; ch = mk(K_ADD, t, ch); } if (cur() == K_ASS) { tp++; N_ *d = rexpr(0, 1, 0); if (!d) return 0; ch = mk(K_ADD, d, ch); } if (cur() == K_CP) { tp++; break; } if (!eat(K_COMMA)) return 0; }
  N_ *b = rstmt(); return b ? mk(K_FUN, b, ch) : 0; }
static N_ *rlist(void) { if (!eat(K_OS)) return 0; N_ *l = mk(K_OS, 0, 0), **t = &l->a; if (cur() == K_CS) { tp++; return l; } for (;;) { N_ *e = rexpr(0, 1, 0); if (!e) return 0; *t = e; t = &e->next; if (cur() == K_CS) { tp++; return l; } if (!eat(K_COMMA)) return 0; } }
static N_ *rprimary(void) { switch (cur()) { case K_OS: return rlist(); case K_INT: case K_STR: case K_NONE: tp++; return mk(K_INT, 0, 0); case K_ID: tp++; return mk(K_ID, 0, 0);
  case K_OP: { tp++; N_ *e = rexpr(1, 1, 0); if (!e || !eat(K_CP)) return 0; return e; }
  case K_OC: { tp++; N_ *l = mk(K_OS, 0, 0), **t = &l->a; if (cur() == K_CC) { tp++; return l; } for (;;) { N_ *e; bool fn = cur() == K_FUN; if (fn) { if (!(e = rfun())) return 0; } else { int nx = tp + 1 < ntk ? tk[tp + 1] : K_END; if (cur() == K_ID && (nx == K_COLON || nx == K_END)) { tp++; if (!eat(K_COLON)) return 0; } else { N_ *k = rexpr(0, 1, 0); if (!k || !eat(K_COLON)) return 0; *t = k; t = &k->next; } if (!(e = rexpr(0, 1, 0))) return 0; } *t = e; t = &e->next; if (cur() == K_CC) { tp++; return l; } if (!fn && !eat(K_COMMA)) return 0; } }
  default: return bad(); } }
static N_ *rpostfix(void) { N_ *e = rprimary(); while (e) switch (cur()) { case K_DOT: case K_ARW: { int k = cur(); tp++; if (!eat(K_ID)) return 0; e = mk(k, e, mk(K_INT, 0, 0)); break; }
  case K_OS: { N_ *l = rlist(); if (!l) return 0; if (!l->a) return bad(); e = mk(K_DOT, e, l); break; }
  case K_OP: { tp++; N_ *c = mk(K_OP, e, 0), **t = &c->b; if (cur() == K_CP) tp++; else for (;;) { N_ *a = rexpr(0, 1, 0); if (!a) return 0; *t = a; t = &a->next; if (cur() == K_CP) { tp++; break; } if (!eat(K_COMMA)) return 0; } e = c; break; }
  default: return e; } return e; }
static N_ *rprefix(void) { int k = cur(); if (k == K_ADD || k == K_QM || k == K_NOT) { tp++; N_ *e = rprefix(); return e ? mk(K_ADD, e, 0) : 0; } return rpostfix(); }
static N_ *rexpr(int tuples, int assigns, int minp) { N_ *l = rprefix(); while (l) { int k = cur(), p = prec(k); if (p < 0 || p < minp || (k == K_COMMA && !tuples) || (k == K_ASS && !assigns)) break; tp++; N_ *r = rexpr(tuples, assigns, k == K_ASS ? p : p + 1); if (!r) return 0; l = mk(k == K_ASS || k == K_COMMA ? k : K_ADD, l, r); } return l; }
static N_ *rblock(int end) { N_ *b = mk(K_OC, 0, 0), **t = &b->a; while (cur() != end && cur() != K_END) { N_ *s = rstmt(); if (!s) return 0; *t = s; t = &s->next; } if (cur() != end) return bad(); return b; }
static N_ *rstmt(void) { switch (cur()) {
  case K_OP: case K_OS: case K_ADD: case K_QM: case K_INT: case K_STR: case K_ID: case K_NOT: case K_NONE: { N_ *e = rexpr(1, 1, 0); if (!e || !eat(K_SEMI)) return 0; return mk(K_SEMI, e, 0); }
  case K_OC: { tp++; N_ *b = rblock(K_CC); if (b) tp++; return b; }
  case K_BRK: tp++; if (!eat(K_SEMI)) return 0; return mk(K_BRK, 0, 0);
  case K_RET: { tp++; N_ *e = rexpr(1, 1, 0); if (!e || !eat(K_SEMI)) return 0; return mk(K_RET, e, 0); }
  case K_FUN: return rfun();
  case K_IF: { tp++; N_ *c = rexpr(1, 1, 0); if (!c || !eat(K_COLON)) return 0; N_ *s = rstmt(), *z = 0; if (!s) return 0; if (cur() == K_ELSE) { tp++; if (!(z = rstmt())) return 0; } N_ *i = mk(K_IF, c, s); N_ *w = mk(K_ELSE, i, z); return w; }
  case K_WHILE: { tp++; N_ *c = rexpr(1, 1, 0); if (!c || !eat(K_COLON)) return 0; N_ *s = rstmt(); return s ? mk(K_WHILE, c, s) : 0; }
  case K_DO: { tp++; N_ *s = rstmt(); if (!s || !eat(K_WHILE)) return 0; N_ *c = rexpr(1, 1, 0); if (!c || !eat(K_SEMI)) return 0; return mk(K_WHILE, c, s); }
  default: return bad(); } }
static bool okx(N_ *e); static bool oks(N_ *s, bool loop);
static bool flat_ok(N_ *e, bool (*f)(N_ *)) { return e->k == K_COMMA ? flat_ok(e->a, f) && flat_ok(e->b, f) : f(e); }
static bool lv(N_ *e) { return e->k == K_ID || (e->k == K_DOT && okx(e->a) && okx(e->b)); }
static bool okx(N_ *e) { switch (e->k) { case K_INT: case K_ID: return true; case K_COMMA: case K_ARW: return false; case K_ADD: return okx(e->a) && (!e->b || okx(e->b)); case K_DOT: return okx(e->a) && okx(e->b);
  case K_OS: for (N_ *c = e->a; c; c = c->next) if (!okx(c)) return false; return true;
  case K_OP: for (N_ *c = e->b; c; c = c->next) if (!okx(c)) return false; return e->a->k == K_ARW ? okx(e->a->a) : okx(e->a);
  case K_ASS: if (e->a->k == K_COMMA && e->b->k != K_OP) return false; return okx(e->b) && flat_ok(e->a, lv);
  case K_FUN: return oks(e, false); } return false; }
static bool oks(N_ *s, bool loop) { switch (s->k) { case K_SEMI: return okx(s->a); case K_OC: for (N_ *c = s->a; c; c = c->next) if (!oks(c, loop)) return false; return true; case K_BRK: return loop; case K_RET: return flat_ok(s->a, okx);
  case K_FUN: for (N_ *p = s->b; p; p = p->b) if (!okx(p->a)) return false; return oks(s->a, false);
  case K_ELSE: return okx(s->a->a) && oks(s->a->b, loop) && (!s->b || oks(s->b, loop)); case K_WHILE: return okx(s->a) && oks(s->b, true); } return false; }
// one compilation: either an executable and no error, or a reported error located in the text
static Executable *comp1(const char *s, int n, int *off) { Error e; Error_Init(&e); Source *src = Source_FromString("x", s, n, &e); sym_check(src != 0, "source object"); if (!src) sym_end(); *off = -7; Executable *x = compile(src, &e, off);
  if (x) sym_check(!e.occurred, "no error next to an executable"); else { sym_check(e.occurred && e.message && e.message[0], "a refusal comes with a message"); sym_check(*off >= -1 && *off <= n, "the error location lies in the text"); }
  Error_Free(&e); Source_Free(src); return x; }
static void addtok(const char *t, int k) { tkoff[ntk] = nj_sn; tk[ntk++] = k; sb(t); sbc(' '); }
static void addtext(const char *p) { while (*p) { while (*p == ' ') p++; if (!*p) break; int n = 0; while (p[n] && p[n] != ' ') n++; char w[8]; memcpy(w, p, n); w[n] = 0; p += n; int i; for (i = 0; i < NTK; i++) if (!strcmp(TK[i].t, w)) break; if (i == NTK) { sym_check(0, "harness: token"); sym_end(); } addtok(TK[i].t, TK[i].k); } }
static const struct { const char *pre, *suf; } CTX[] = { {"", ""}, {"a", ";"}, {"a =", ";"}, {"a (", ") ;"}, {"a = {", "} ;"}, {"fun a (", ") 1 ;"}, {"if a :", "1 ;"}, {"while a : {", "}"}, {"do", "while a ;"}, {"return", ";"}, {"fun a ( ) ", ";"}, {"a = [", "] ;"}, {"a = { fun a ( ) 1 ;", "} ;"}, {"a ( a -> ", ") ;"}, {"if 1 : 1 ;", ";"}, {"while 1 : if a : fun a ( )", "else break ;"} };
#define NCTX ((int)(sizeof CTX / sizeof CTX[0]))
void t_parse_tokens(void) { // every sequence of n tokens in a context: accepted exactly when the grammar says so
  int c = (int)sym_param("ctx", 0), n = (int)sym_param("n", 3); sb0(); ntk = 0; addtext(CTX[c].pre); for (int i = 0; i < n; i++) { int z = sym_choose("t", i == n - 1 && !sym_param("small", 0) ? NTK : NMAIN); addtok(TK[z].t, TK[z].k); } addtext(CTX[c].suf); tkoff[ntk] = nj_sn;
  tp = 0; badtok = -1; npool = 0; N_ *b = rblock(K_END); bool ok = b && oks(b, false); int off; Executable *x = comp1(nj_src, nj_sn, &off);
  sym_check((x != 0) == ok, ok ? "a valid program is accepted" : "an invalid program is refused");
  if (!x && !b) { sym_check(off == tkoff[badtok], "a syntax error is located at the token that cannot be there"); }
  if (!x && b) sym_check(off >= 0 && off < nj_sn, "a meaningless construct is located in the text");
  sym_cover(ok ? "accepted" : b ? "meaningless" : "refused"); sym_out(ok); if (x) Executable_Free(x); }
void t_parse_bytes(void) { // arbitrary bytes: an executable or a located error, nothing else
  static const char *PRE[] = {"", "a=", "'", "\"a\\", "1", "1.", "#", "a", "{a:", "if a:", "fun f(", "x=[1,", "a=={", "not", "# c\n"}; int n = (int)sym_param("n", 3), p = (int)sym_param("pre", 0); sb0(); sb(PRE[p]); for (int i = 0; i < n; i++) sbc((char)sym_u8("b")); if (sym_choose("tail", 2)) sb(";}'\"])"); int off; Executable *x = comp1(nj_src, nj_sn, &off); sym_cover(x ? "accepted" : "refused"); sym_out(x != 0); if (x) Executable_Free(x); }
void t_parse_cut(void) { // programs cut short anywhere, and with one byte replaced
  static const char *P[] = {"fun f(a: int = 1, b: ?int | float) { return a, b; } x, y = f(1, 2); m = {a: 1, 'b': [1, 2.5], fun g(s) s.t->u(1)[2, 3] = not -1; }; # end\nwhile m.a < 3 or true and none: { if x == y: break; else do x = x % 2; while x >= 1; } \"q\\n\"; "}; int n = (int)strlen(P[0]); bool mut = sym_param("mut", 0); sb0(); int at = sym_choose("at", n + 1); if (!mut) sbn(P[0], at); else { if (at == n) sym_end(); sb(P[0]); nj_src[at] = (char)sym_u8("b"); }
  int off; Executable *x = comp1(nj_src, nj_sn, &off); if (!mut) { bool top = at >= n - 6 || (at >= 60 && at <= 60); (void)top; if (at == n) sym_check(x != 0, "the whole program is accepted"); } sym_cover(x ? "accepted" : "refused"); sym_out(x != 0); if (x) Executable_Free(x); }
// ---------------------------------------------------------------- C31: layout
static const char *LAY[] = { "a = 1 + 2 * a - 3 ; b = a ;", "fun f ( x : int = 1 , y : ? int | float ) { return x , y ; } c , d = f ( 1 , - 2 ) ;", "if a == 1 : b = { k : 1 , 'v w' : [ 1 , 2.5 ] } ; else while not a : break ;", "do { a . b = c [ 1 ] ; o -> m ( 1 ) ; } while a <= 2 and b != 3 or c >= 4 ;", "m = { fun f ( ) none ; k : true } ; return 'x # y' , m . f ( ) ; # z" };
static bool wordy(char c) { return isalnum((unsigned char)c) || c == '_'; }

static bool opch(char c) { return strchr("+-*/<>!=,|%", c) != 0; }
static void lay(const char *p, int k, int kind, const char *bytes, int nb) { // separator #k is of the given kind, the others are single blanks
  sb0(); int s = 0; while (*p) { if (*p == '#') break; if (*p != ' ') { if (*p == '\'') { const char *q = strchr(p + 1, '\''); sbn(p, q - p + 1); p = q + 1; } else sbc(*p++); continue; }
    char l = nj_sn ? nj_src[nj_sn - 1] : 0, r = p[1]; p++; if (s++ != k) { sbc(' '); continue; }
    switch (kind) { case 0: if ((wordy(l) && wordy(r)) || (opch(l) && opch(r)) || (isdigit((unsigned char)l) && r == '.')) sbc(' '); break; case 1: sb("\n"); break; case 2: sb(" \t\r\n\v\f"); break; case 3: sbc('#'); sbn(bytes, nb); sbc('\n'); break; case 4: sb("##'\n#\"\n"); break; case 5: sbn(bytes, nb); break; } } }
void t_layout(void) { int pr = (int)sym_param("prog", 0), k = sym_choose("where", 40), kind = sym_choose("kind", 6), off; int ns = 0; for (const char *p = LAY[pr]; *p && *p != '#'; p++) { if (*p == '\'') p = strchr(p + 1, '\''); if (*p == ' ') ns++; } if (k >= ns) sym_end();
  char by[3]; sym_bytes(by, 2, "c"); by[2] = 0; for (int i = 0; i < 2; i++) { if (kind == 3) sym_assume(by[i] != '\n'); if (kind == 5) sym_assume(by[i] == ' ' || (by[i] >= 9 && by[i] <= 13)); }
  lay(LAY[pr], -1, 0, by, 2); Executable *x = comp1(nj_src, nj_sn, &off); sym_check(x != 0, "the reference layout compiles"); if (!x) sym_end(); int n0 = nj_sn; (void)n0; lay(LAY[pr], k, kind, by, 2); Executable *y = comp1(nj_src, nj_sn, &off); sym_check(y != 0, "another layout of the same program compiles"); if (!y) sym_end();
  sym_check(Executable_Equiv(x, y, 0, ""), "layout and comments do not change what is compiled"); sym_cover("layout"); Executable_Free(x); Executable_Free(y); }
void t_layout_ends(void) { // leading and trailing material, and a comment without a final newline
  static const char *PR[] = {"", " ", "\n\n", "#x\n", "#", "# a = 2;\n \t#\n"}, *SU[] = {"", " ", "\n", "#", "# b = 3;", "\n#\n", "#\r\n"}; int p = sym_choose("p", 6), s = sym_choose("s", 7), off; if (p == 4) sym_end(); char c = (char)sym_u8("c"); sym_assume(c != '\n'); Executable *x = comp1("a = 1;", 6, &off); sb0(); sb(PR[p]); sb("a = 1;"); sb(SU[s]); if (s == 3 || s == 4) sbc(c); Executable *y = comp1(nj_src, nj_sn, &off); sym_check(x && y, "compiles"); if (x && y) sym_check(Executable_Equiv(x, y, 0, ""), "nothing but the program counts"); sym_cover("ends"); Executable_Free(x); Executable_Free(y);
  Executable *z = comp1("# only a comment", 16, &off), *w = comp1("", 0, &off); sym_check(z && w && Executable_Equiv(z, w, 0, ""), "a comment is an empty program"); Executable_Free(z); Executable_Free(w); }
// ---------------------------------------------------------------- C21: literals and names
void t_lit_int(void) { int n = (int)sym_param("n", 19), lead = (int)sym_param("lead", 0); if (!nj_boot(NULL)) return; char d[32]; for (int i = 0; i < n; i++) { uint64_t x = sym_u64("d", 4); sym_assume(x <= 9); d[i] = (char)('0' + x); } sb0(); sb("out("); for (int i = 0; i < lead; i++) sbc('0'); sbn(d, n); sb(");"); bool fits = true; if (n == 19) { static const char *M = "9223372036854775807"; fits = memcmp(d, M, 19) <= 0; } else if (n > 19) { sym_assume(d[0] != '0'); fits = false; } if (lead + n >= 64) fits = false;
  uint64_t v = 0; for (int i = 0; i < n && n < 20; i++) v = v * 10 + (uint64_t)((int)(unsigned char)d[i] - '0'); bool ok = sb_run(); sym_check(ok == fits, fits ? "an integer literal that fits is accepted" : "an integer literal that does not fit is refused"); if (ok) sym_check(nj_nout == 1 && nj_isint(0, (long long)v), "the value of an integer literal"); else sym_check(nj_nout == 0, "nothing ran"); sym_cover(ok ? "value" : "too big"); nj_end(); }
void t_lit_float(void) { int a = (int)sym_param("a", 1), b = (int)sym_param("b", 2); if (!nj_boot(NULL)) return; char d[8]; for (int i = 0; i < a + b; i++) { d[i] = (char)sym_u8("d"); sym_assume(d[i] >= '0' && d[i] <= '9'); } sb0(); sb("out("); sbn(d, a); sbc('.'); sbn(d + a, b); sb(");"); bool ok = sb_run(); sym_check(ok, "a float literal is accepted"); long long v = 0; double div = 1; for (int i = 0; i < a + b; i++) v = v * 10 + (long long)sym_conc((uint64_t)(d[i] - '0')); for (int i = 0; i < b; i++) div *= 10; sym_check(ok && nj_isflt(0, (double)v / div), "the value of a float literal is the nearest double"); sym_cover("float"); nj_end(); }
void t_lit_float_fixed(void) { static const struct { const char *t; double v; bool ok; } F[] = { {"0.1", 0.1, 1}, {"123456789.987654321", 123456789.987654321, 1}, {"9007199254740993.0", 9007199254740992.0, 1}, {"0.30000000000000004", 0.30000000000000004, 1}, {"0.0000000000000000000000000000000000000000000000000000000000001", 1e-61, 1}, {"99999999999999999999999999999999999999999999999999999999999.0", 1e59, 1}, {"000000000000000000000000000000000000000000000000000000000001.25", 1.25, 1}, {"0000000000000000000000000000000000000000000000000000000000001.25", 0, 0}, {"1.", 0, 0}, {".5", 0, 0}, {"1.5.5", 0, 0}, {"1e5", 0, 0}, {"1.5e5", 0, 0}, {"0x10", 0, 0}, {"1_000", 0, 0}, {"1 .5", 0, 0}, {"2.50", 2.5, 1} };
  int k = sym_choose("k", (int)(sizeof F / sizeof F[0])); if (!nj_boot(NULL)) return; sb0(); sb("out("); sb(F[k].t); sb(");"); bool ok = sb_run(); if (F[k].ok && strlen(F[k].t) < 64) sym_check(ok && nj_nout == 1 && nj_isflt(0, F[k].v), "the value of a float literal"); else sym_check(!ok && nj_nout == 0, "not a float literal"); sym_cover(ok ? "float" : "refused"); nj_end(); }
static int refstr(const unsigned char *s, int n, unsigned char q, unsigned char *o) { // decoded length, -1 if escape invalid, -2 if it is not one string
  int m = 0; for (int i = 0; i < n; i++) { if (s[i] == q) return -2; if (s[i] != '\\') { o[m++] = s[i]; continue; } if (++i == n) return -2; switch (s[i]) { case 'n': o[m++] = 10; break; case 't': o[m++] = 9; break; case 'r': o[m++] = 13; break; case '\\': case '\'': case '"': o[m++] = s[i]; break; default: for (int j = i; j < n; j++) if (s[j] == q || s[j] == '\\') return -2; return -1; } } return m; }
void t_lit_str(void) { int n = (int)sym_param("n", 3); if (!nj_boot(NULL)) return; unsigned char q = sym_choose("q", 2) ? '"' : '\'', b[8], o[8]; sym_bytes(b, n, "b"); for (int i = 0; i < n; i++) sym_assume(b[i] != 0); sb0(); sb("out("); sbc((char)q); sbn((char *)b, n); sbc((char)q); sb(");"); int m = refstr(b, n, q, o); if (m == -2) sym_end(); bool ok = sb_run(); if (m < 0) { sym_check(!ok && nj_nout == 0, "an unknown escape sequence is refused"); sym_cover("bad escape"); nj_end(); return; }
  // bytes that are not UTF-8 make no string
  if (ok) { sym_check(nj_nout == 1 && nj_isstr(0, (char *)o, m), "the characters of a string literal"); sym_cover("string"); } else { bool ascii = true; for (int i = 0; i < m; i++) if (o[i] >= 128) ascii = false; sym_check(!ascii, "a string literal is accepted"); sym_cover("not text"); } nj_end(); }
void t_lit_str_long(void) { static const int L[] = {0, 1, 100, 4000, 4094, 4095, 4096, 4097, 5000}; int k = sym_choose("n", 9), n = L[k], esc = sym_choose("esc", 3); if (!nj_boot(NULL)) return; static char s[5200]; for (int i = 0; i < n; i++) s[i] = (char)('a' + i % 26); sb0(); sb("out('"); if (esc == 0 || n < 2) sbn(s, n); else { int at = esc == 1 ? n - 1 : n / 2; sbn(s, at); sb("\\n"); s[at] = '\n'; sbn(s + at + 1, n - at - 1); } sb("');");
  bool ok = sb_run(); if (n <= 4095) sym_check(ok && nj_nout == 1 && nj_out[0].tag == V_STR && nj_out[0].n == (size_t)n && !memcmp(nj_out[0].s, s, n < 95 ? n : 95), "a string literal of up to 4095 bytes has its characters"); else sym_check(!ok && nj_err.occurred && nj_nout == 0, "a longer string literal is refused"); sym_cover(ok ? "string" : "too long"); nj_end(); }
void t_lit_name(void) { // which words are names
  int n = (int)sym_param("n", 3); char w[12]; for (int i = 0; i < n; i++) { w[i] = (char)sym_u8("c"); bool al = (w[i] >= 'a' && w[i] <= 'z') | (w[i] == '_') | (w[i] >= 'A' && w[i] <= 'Z'); sym_assume(al | (i > 0 && ((w[i] >= '0') & (w[i] <= '9')))); } w[n] = 0; static const char *KW[] = {"if", "fun", "not", "and", "or", "else", "none", "true", "false", "return", "while", "break", "do"}; bool kw = false; for (int i = 0; i < 13; i++) if (!strcmp(w, KW[i])) kw = true;
  sb0(); sb(w); sb("=7;"); int off; Executable *x = comp1(nj_src, nj_sn, &off); if (kw) sym_check(!x, "a keyword is not a name"); else { sym_check(x != 0, "any other word is a name"); if (x) { Opcode op; Operand o[3]; int c = 3; bool f = Executable_Fetch(x, 1, &op, o, &c); sym_check(f && op == OPCODE_ASS && c == 1 && !strcmp(o[0].as_string, w), "the name is the whole word"); } } sym_cover(kw ? "keyword" : "name"); if (x) Executable_Free(x); }
void t_lit_kwname(void) { // words made from keywords
  static const char *KW[] = {"if", "fun", "not", "and", "or", "else", "none", "true", "false", "return", "while", "break", "do"}; int k = sym_choose("k", 13), how = sym_choose("how", 5); char w[32]; strcpy(w, KW[k]); char c = (char)sym_u8("c"); sym_assume(((c >= 'a') & (c <= 'z')) | (c == '_') | ((c >= 'A') & (c <= 'Z')) | ((how < 2) & (c >= '0') & (c <= '9'))); int l = (int)strlen(w);
  switch (how) { case 0: w[l] = c; w[l + 1] = 0; break; case 1: sym_assume(c != w[l - 1]); w[l - 1] = c; break; case 2: memmove(w + 1, w, l + 1); w[0] = c; break; case 3: w[l - 1] = 0; break; case 4: sym_assume(c != w[0]); w[0] = c; break; } for (int i = 0; i < 13; i++) if (!strcmp(w, KW[i])) sym_end();
  if (!nj_boot(NULL)) return; sb0(); sb(w); sb(" = 7; out("); sb(w); sb(");"); bool ok = sb_run(); sym_check(ok && nj_nout == 1 && nj_isint(0, 7), "a word containing a keyword is a name"); sym_cover("name"); nj_end(); }
void t_lit_str_nul(void) { // a zero byte in a literal is either part of the string or refused, like every other byte
  int at = sym_choose("at", 3); if (!nj_boot(NULL)) return; char s[4] = {'a', 'b', 'c', 0}; s[at] = 0; sb0(); sb("out('"); sbn(s, 3); sb("');"); Error e; Error_Init(&e); Source *src = Source_FromString("x", nj_src, nj_sn, &e); if (!src) return; Object *rets[MAX_RETS]; bool ok = runSource(nj_rt, src, rets, &nj_err) >= 0; if (ok) sym_check(nj_isstr(0, s, 3), "a zero byte in a string literal"); sym_cover("nul"); Source_Free(src); nj_end(); }
// ---------------------------------------------------------------- larger sizes
static char *bq; static int bqn; static void q0(void) { bq = malloc(200000); bqn = 0; sym_check(bq != 0, "harness: memory"); } static void qs(const char *s) { size_t n = strlen(s); memcpy(bq + bqn, s, n); bqn += (int)n; } static void qr(char c, int n) { memset(bq + bqn, c, (size_t)n); bqn += n; } static void qi(int v) { char t[12]; int i = 12; do { t[--i] = (char)('0' + v % 10); v /= 10; } while (v); memcpy(bq + bqn, t + i, (size_t)(12 - i)); bqn += 12 - i; }
static const int QL[] = {1, 2, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 5000, 10000, 65535, 65536, 65537};
void t_big_layout(void) { // comments, blanks and newlines of any length
  int n = QL[sym_choose("n", 30)], kind = sym_choose("kind", 5), where = sym_choose("where", 3), off; if (n > 10000 && where == 1) sym_end(); char c = (char)sym_u8("c"), d = (char)sym_u8("d"); sym_assume(c != '\n' && d != '\n'); static const char *T[] = {"a = 'x'", "; fun f(b) { return b + 1; } ", "if f(1) == 2: a = f(2.5);"}; q0(); for (int i = 0; i < 3; i++) qs(T[i]); Executable *x = comp1(bq, bqn, &off); sym_check(x != 0, "compiles"); if (!x) sym_end();
  bqn = 0; for (int i = 0; i < 3; i++) { qs(T[i]); if (i == where || (where == 2 && i == 0)) { if (kind == 0) { qs("#"); qr('x', n); bq[bqn - 1] = c; qs("\n"); } else if (kind == 1) { qr(' ', n); qr('\t', 1); } else if (kind == 2) qr('\n', n); else if (kind == 3) { qs("# "); bq[bqn++] = c; qr('a', n); bq[bqn++] = d; qs("\n#"); bq[bqn++] = d; qs("\n"); } else { for (int k = 0; k < n && k < 3000; k++) { qs("#q\n "); } } } } Executable *y = comp1(bq, bqn, &off); sym_check(y != 0, "another layout of the same program compiles"); if (!y) sym_end(); sym_check(Executable_Equiv(x, y, 0, ""), "layout and comments do not change what is compiled"); sym_cover("layout"); Executable_Free(x); Executable_Free(y); free(bq); }
void t_big_source(void) { // long and deeply nested programs, well-formed or with one mistake at their end
  static const int N[] = {1, 5, 17, 33, 65, 100, 128, 129, 200, 256, 257, 300}; int form = (int)sym_param("form", 0), n = N[sym_choose("n", 12)], bad = sym_choose("bad", 2), off; q0();
  switch (form) { case 0: qs("x = "); qr('(', n); qs("1"); qr(')', n - bad); qs(";"); break; case 1: for (int i = 0; i < n; i++) qs("if x: "); qs(bad ? "else" : "y"); qs(" = 1;"); break; case 2: for (int i = 0; i < n; i++) { qs("v"); qi(i); qs(" = "); qi(i); qs(";\n"); } qs(bad ? "v = ;" : "v = 1;"); break; case 3: qs("x = "); qr('[', n); qr(']', n); qs(bad ? "]" : ""); qs(";"); break; case 4: for (int i = 0; i < n; i++) qs("{ y = 1; "); for (int i = 0; i < n + bad; i++) qs("}"); break; case 5: qs("x = 1"); for (int i = 0; i < n; i++) qs(i % 3 == 0 ? " + a" : i % 3 == 1 ? " * b" : " - 2"); qs(bad ? " +;" : ";"); break; case 6: qs("x = "); for (int i = 0; i < n; i++) qs("not "); qs(bad ? ";" : "y;"); break; case 7: qs("x = a"); for (int i = 0; i < n; i++) qs(i % 2 ? ".k" : "[1]"); qs(bad ? ".;" : ";"); break; case 8: qs("fun f("); for (int i = 0; i < n; i++) { if (i) qs(", "); qs("p"); qi(i); } qs(bad ? ",) 1;" : ") 1;"); break; case 9: for (int i = 0; i < n; i++) { qs("fun f"); qi(i); qs("() { "); } for (int i = 0; i < n + bad; i++) qs("}"); break; case 10: qs("m = {"); for (int i = 0; i < n; i++) { if (i) qs(","); qs("k"); qi(i); qs(": "); qi(i); } qs(bad ? "k};" : "};"); break; case 11: for (int i = 0; i < n; i++) qs("while a: "); qs(bad ? "while" : "break"); qs(";"); break; case 12: qs("x = '"); qr('s', n * 37); qs(bad ? ";" : "';"); break; default: qs("x = "); qs("a"); for (int i = 0; i < n; i++) qs(i % 2 ? " and b" : " or c"); qs(bad ? " or;" : ";"); }
  Executable *x = comp1(bq, bqn, &off); if (bad) sym_check(!x, "a mistake at the end is noticed"); else sym_check(x != 0 || (form == 12 && n * 37 > 4000), "a well-formed program is accepted, however long or deep"); if (!x) sym_check(off >= -1 && off <= bqn, "the error's place is inside of the source"); sym_cover(x ? "accepted" : "refused"); if (x) Executable_Free(x); free(bq); }
void t_big_lit(void) { // long texts with a symbolic character or an escape anywhere
  int n = QL[sym_choose("n", 27)], at = sym_choose("at", 4), form = sym_choose("form", 3); int p = at == 0 ? 0 : at == 1 ? n - 1 : at == 2 ? n / 2 : n > 1023 ? 1023 : n > 128 ? 128 : 0; if (p >= n) p = n - 1; if (!nj_boot(NULL)) return; char c = (char)(sym_u8("c") & 127); sym_assume(c != '\'' && c != '\\' && c != 0); q0(); qs("x = '"); for (int i = 0; i < n; i++) { if (i == p) { if (form == 0) bq[bqn++] = c; else qs(form == 1 ? "\\n" : "\\'"); } else bq[bqn++] = (char)('a' + i % 26); } qs("'; out(count(x), x["); qi(p); qs("], x["); qi(p ? 0 : n - 1); qs("], string.slice(x, "); qi(n > 40 ? n - 40 : 0); qs("));"); bq[bqn] = 0; bool ok = nj_run(bq); if (!ok && n > 4000) { sym_check(nj_err.occurred && nj_nout == 0, "a text too long for the compiler is refused"); sym_cover("too long"); free(bq); nj_end(); return; } sym_check(ok && nj_nout == 4 && nj_isint(0, n), "a long text literal"); char w = form == 0 ? c : form == 1 ? '\n' : '\''; sym_check(nj_isstr(1, &w, 1), "has the characters written"); int o = p ? 0 : n - 1; char z = o == p ? w : (char)('a' + o % 26); sym_check(nj_isstr(2, &z, 1), "in their places"); char t[48]; int s = n > 40 ? n - 40 : 0; for (int i = s; i < n; i++) t[i - s] = i == p ? w : (char)('a' + i % 26); sym_check(nj_isstr(3, t, (size_t)(n - s)), "to its end"); sym_cover("text"); free(bq); nj_end(); }
void t_source_text(void) { // a source holds exactly the text and the name it was made from
  static const int L[] = { 0, 1, 2, 7, 8, 63, 64, 100, 1000 }; int l = L[sym_choose("len", 9)], cut = sym_choose("cut", 4), nm = sym_choose("name", 4), how = sym_choose("how", 3); static char t[1100]; for (int i = 0; i < l; i++) { t[i] = (char)('a' + i % 26); if (i < 2 || i == l - 1) { t[i] = (char)sym_u8("c"); sym_assume(t[i] != 0); } } t[l] = 0; int n = cut == 0 ? -1 : cut == 1 ? l : cut == 2 ? l / 2 : 0; int want = n < 0 ? l : n; static const char *N[] = { NULL, "", "x", "a/long name.noja" };
  Error e; Error_Init(&e); Source *s; if (how == 2) { if (cut != 0 || nm < 2) sym_end(); nsym_mkfile("src.txt", t, l); s = Source_FromFile("src.txt", &e); } else s = Source_FromString(N[nm], t, n, &e); sym_check(s != NULL, "made"); if (!s) sym_end(); t[0] ^= 0; if (how == 1) { Source *c = Source_Copy(s); Source_Free(s); s = c; }
  sym_check((int)Source_GetSize(s) == want, "its size"); sym_check(!memcmp(Source_GetBody(s), t, want), "its text"); sym_check(Source_GetBody(s)[want] == 0, "terminated"); if (how != 2) sym_check(N[nm] ? Source_GetName(s) && !strcmp(Source_GetName(s), N[nm]) : !Source_GetName(s), "its name"); sym_check(how == 2 || !Source_GetAbsolutePath(s), "only files have a path"); Source_Free(s); Error_Free(&e); sym_cover("source"); }
