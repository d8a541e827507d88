// C07: control flow, over all statement trees and all outcomes of their conditions.
#include "nj.h"
enum { T, BRK, RET, IF, IFE, WHL, DO, SEQ, FN };
typedef struct S S; struct S { int k, id; S *a, *b; };
static S ss[64]; static int ns, ids; static bool bits[16]; static int nb, draws, rdraws; static bool infun;
static int bin_c(Runtime *r, Object **argv, unsigned argc, Object *rets[static MAX_RETS], Error *e) {
  nj_out[nj_nout].tag = V_OTHER; nj_out[nj_nout++].i = Object_GetInt(argv[0]);
  bool v = draws < nb && bits[draws]; draws++; rets[0] = Object_FromBool(v, Runtime_GetHeap(r), e); return rets[0] ? 1 : -1; }
static S *gen(int fuel, bool loop) {
  S *s = &ss[ns++]; s->id = ids++; s->a = s->b = 0;
  if (!fuel) { int n = 1 + loop + infun; int k = n > 1 ? sym_choose("leaf", n) : 0; s->k = k == 0 ? T : k == 1 && loop ? BRK : RET; return s; }
  s->k = IF + sym_choose("stmt", 5);
  if (s->k == IF) s->a = gen(fuel - 1, loop);
  else if (s->k == WHL || s->k == DO) s->a = gen(fuel - 1, true);
  else { int x = sym_choose("split", fuel); s->a = gen(x, loop); s->b = gen(fuel - 1 - x, loop); }
  return s;
}
static int brace;
// An unbraced body that ends in an else-less `if` would capture a following `else`: always brace those.
static bool dangling(S *s) { return s->k == IF || ((s->k == WHL) && dangling(s->a)) || (s->k == IFE && dangling(s->b)); }
static void txt(S *s);
static void body(S *s, bool must) { if (s->k != SEQ && (brace || must)) { sb("{"); txt(s); sb("}"); } else { txt(s); } }
static void txt(S *s) {
  switch (s->k) {
    case T: sb("t("); sbi(s->id); sb(");"); break;
    case BRK: sb("break;"); break;
    case RET: sb("return "); sbi(s->id); sb(";"); break;
    case IF: sb("if c("); sbi(s->id); sb("): "); body(s->a, false); break;
    case IFE: sb("if c("); sbi(s->id); sb("): "); body(s->a, dangling(s->a)); sb(" else "); body(s->b, false); break;
    case WHL: sb("while c("); sbi(s->id); sb("): "); body(s->a, false); break;
    case DO: sb("do "); body(s->a, false); sb(" while c("); sbi(s->id); sb(");"); break;
    case SEQ: sb("{"); txt(s->a); sb(" "); txt(s->b); sb("}"); break;
  }
}
static int tr[256], ntr, rv; enum { NRM, B, R };
static bool rc(S *s) { tr[ntr++] = s->id; bool v = rdraws < nb && bits[rdraws]; rdraws++; return v; }
static int ex(S *s) {
  switch (s->k) {
    case T: tr[ntr++] = s->id + 1000; return NRM;
    case BRK: return B; case RET: rv = s->id; return R;
    case IF: return rc(s) ? ex(s->a) : NRM;
    case IFE: return rc(s) ? ex(s->a) : ex(s->b);
    case WHL: while (rc(s)) { int x = ex(s->a); if (x == B) break; if (x == R) return R; } return NRM;
    case DO: do { int x = ex(s->a); if (x == B) break; if (x == R) return R; } while (rc(s)); return NRM;
    case SEQ: { int x = ex(s->a); return x != NRM ? x : ex(s->b); }
  }
  return NRM;
}
static int bin_t(Runtime *r, Object **argv, unsigned argc, Object *rets[static MAX_RETS], Error *e) { nj_out[nj_nout].tag = V_OTHER; nj_out[nj_nout++].i = Object_GetInt(argv[0]) + 1000; return 0; }
void t_control(void) {
  int fuel = (int)sym_param("fuel", 2); infun = sym_param("fun", 0); nb = (int)sym_param("bits", 4);
  for (int i = 0; i < nb; i++) bits[i] = sym_bool("cond");
  StaticMapSlot in[] = { NJ_FUN("c", bin_c, 1), NJ_FUN("t", bin_t, 1), NJ_END };
  if (!nj_boot(in)) sym_check(0, "boot");
  draws = rdraws = ns = ids = ntr = 0; rv = -1; S *s = gen(fuel, false); brace = fuel > 2 ? (int)sym_param("brace", 0) : sym_choose("brace", 2);
  sb0(); if (infun) sb("fun g() {"); txt(s); if (infun) sb("} out(g());"); else sb(" out(7);");
  bool ok = sb_run(); ex(s);
  sym_check(ok, "a well formed program with boolean conditions doesn't abort");
  sym_check(nj_nout == ntr + 1, "the same statements run as in the reference");
  for (int i = 0; i < ntr && i < nj_nout; i++) sym_check(nj_out[i].tag == V_OTHER && nj_out[i].i == tr[i], "statements and conditions run in the reference's order");
  if (ok) sym_check(infun ? (rv < 0 ? nj_isnone(ntr) : nj_isint(ntr, rv)) : nj_isint(ntr, 7), "execution continues after the statement with the right value");
  sym_cover("ran"); nj_logout(); nj_end();
}
// break outside any loop and malformed loops are rejected before anything runs.
void t_break_outside(void) {
  static const char *const P[] = {"t(1); break;","if c(1): break;","{t(1); break;}","fun f() break; t(1);","while c(1): { fun f() break; f(); }","fun f() { while c(2): t(1); break; } f();","do t(1); while c(2); break;","if c(1): t(1); else break;"};
  StaticMapSlot in[] = { NJ_FUN("c", bin_c, 1), NJ_FUN("t", bin_t, 1), NJ_END }; nb = 2; for (int i = 0; i < nb; i++) bits[i] = sym_bool("cond"); draws = 0;
  if (!nj_boot(in)) sym_check(0, "boot");
  bool ok = nj_run(P[sym_choose("prog", 8)]);
  sym_check(!ok && nj_err.occurred && nj_nout == 0, "break outside a loop is rejected before the program runs"); sym_cover("rejected"); sym_out(ok); nj_end();
}
// A loop runs its body exactly as many times as its condition allows, for every bound.
void t_loop_count(void) {
  long long n = sym_range("n", 0, 6), step = sym_range("step", 1, 3); bool brk = sym_bool("brk"); long long at = sym_range("at", 0, 6);
  StaticMapSlot in[] = { NJ_INT("N", n), NJ_INT("STEP", step), NJ_BOOL("BRK", brk), NJ_INT("AT", at), NJ_END }; 
  if (!nj_boot(in)) sym_check(0, "boot"); int form = sym_choose("form", 3);
  static const char *const P[] = {"i=0; k=0; while i<N: { if BRK and i==AT: break; i=i+STEP; k=k+1; } out(i,k);",
    "i=0; k=0; do { if BRK and i==AT: break; i=i+STEP; k=k+1; } while i<N; out(i,k);",
    "i=0; k=0; while true: { if not (i<N): break; j=0; while true: { j=j+1; if j==2: break; } if BRK and i==AT: break; i=i+STEP; k=k+j-1; } out(i,k);"};
  bool ok = nj_run(P[form]); long long i = 0, k = 0;
  if (form == 1) { do { if (brk && i == at) break; i += step; k++; } while (i < n); } else while (i < n) { if (brk && i == at) break; i += step; k++; }
  sym_check(ok && nj_nout == 2 && nj_isint(0, i) && nj_isint(1, k), "iteration count"); sym_cover("count"); nj_logout(); nj_end();
}
