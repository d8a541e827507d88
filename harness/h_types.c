// C10: type assertions, istypeof and the type operators, over all type and value trees.
#include "nj.h"
enum { N_, B_, I_, F_, S_, BUF, L_, M_, TY, FUN_, NV_KINDS };
static const char *const TN[] = {"None","bool","int","float","String","Buffer","List","Map","Type"};
enum { TBASE, TANY, TSUM, TNUL, TLIST, TMAP, TLIT };
typedef struct TT TT; struct TT { int k, base; TT *c[2]; int n; }; static TT tts[64]; static int nt;
typedef struct VV VV; struct VV { int k, n; VV *c[2]; }; static VV vvs[64]; static int nv;
static TT *gt(int fuel) { TT *t = &tts[nt++]; t->n = 0; if (!fuel) { bool sm = sym_param("small", 0); int k = sym_choose("tleaf", sm ? 3 : 8); t->k = k == 0 && !sm ? TANY : TBASE; static const int B[] = {0, N_, B_, I_, F_, S_, L_, M_}, C[] = {N_, I_, L_}; t->base = sm ? C[k] : B[k]; return t; }
  int k = sym_choose("tnode", 4); t->k = TSUM + k; if (k == 0) { int a = sym_choose("split", fuel); t->c[0] = gt(a); t->c[1] = gt(fuel - 1 - a); } else if (k == 1) t->c[0] = gt(fuel - 1); else { t->n = sym_choose("n", fuel > 1 ? 3 : 2); if (t->n > 0) t->c[0] = gt(t->n == 1 ? fuel - 1 : 0); if (t->n > 1) t->c[1] = gt(fuel - 2); } return t; }
static VV *gv(int fuel) { VV *v = &vvs[nv++]; v->n = 0; int k; if (sym_param("small", 0)) { static const int C[] = {N_, I_, S_, 7, 8}; k = C[sym_choose("vleaf", fuel ? 5 : 3)]; } else k = sym_choose("vleaf", fuel ? 9 : 7); v->k = k; if (k == L_ || k == M_) { } 
  if (k == 6) v->k = TY; else if (k == 7) v->k = L_; else if (k == 8) v->k = M_; if (k >= 7) { v->n = sym_choose("vn", fuel > 1 ? 3 : 2); if (v->n > 0) v->c[0] = gv(v->n == 1 ? fuel - 1 : 0); if (v->n > 1) v->c[1] = gv(fuel - 2); } return v; }
static void tt(TT *t) { switch (t->k) { case TBASE: sb(TN[t->base]); break; case TANY: sb("any"); break; case TSUM: sb("("); tt(t->c[0]); sb("|"); tt(t->c[1]); sb(")"); break; case TNUL: sb("?"); tt(t->c[0]); break;
  case TLIST: sb("["); for (int i = 0; i < t->n; i++) { if (i) sb(","); tt(t->c[i]); } sb("]"); break; case TMAP: sb("{"); for (int i = 0; i < t->n; i++) { if (i) sb(","); sb(i ? "k1:" : "k0:"); tt(t->c[i]); } sb("}"); break; } }
static void vt(VV *v) { switch (v->k) { case N_: sb("none"); break; case B_: sb("PB"); break; case I_: sb("PI"); break; case F_: sb("PF"); break; case S_: sb("'s'"); break; case BUF: sb("buffer.new(1)"); break; case TY: sb("int"); break;
  case L_: sb("["); for (int i = 0; i < v->n; i++) { if (i) sb(","); vt(v->c[i]); } sb("]"); break; case M_: sb("{"); for (int i = 0; i < v->n; i++) { if (i) sb(","); sb(i ? "k1:" : "k0:"); vt(v->c[i]); } sb("}"); break; } }
static bool match(TT *t, VV *v) { switch (t->k) { case TBASE: return t->base == v->k; case TANY: return true; case TSUM: return match(t->c[0], v) || match(t->c[1], v); case TNUL: return v->k == N_ || match(t->c[0], v);
  case TLIST: if (v->k != L_ || v->n < t->n) return false; for (int i = 0; i < t->n; i++) if (!match(t->c[i], v->c[i])) return false; return true;
  case TMAP: if (v->k != M_) return false; for (int i = 0; i < t->n; i++) if (i >= v->n || !match(t->c[i], v->c[i])) return false; return true; } return false; }
static void boot(void) { StaticMapSlot in[] = { NJ_BOOL("PB", sym_bool("b")), NJ_INT("PI", sym_i64("i")), NJ_FLT("PF", sym_f64("f")), NJ_END }; static StaticMapSlot k[4]; memcpy(k, in, sizeof in); if (!nj_boot(k)) sym_check(0, "boot"); }
// A list type accepts lists whose first items match; a map type accepts maps that have the fields.
void t_istypeof(void) {
  boot(); int form = (int)sym_param("form", 0); nt = nv = 0; TT *t = gt((int)sym_param("tf", 1)); VV *v = gv((int)sym_param("vf", 1)); bool m = match(t, v); sb0();
  if (form == 0) { sb("T="); tt(t); sb("; v="); vt(v); sb("; out(istypeof(T,v));"); bool ok = sb_run(); sym_check(ok && nj_nout == 1, "istypeof never aborts on well formed types"); if (ok) sym_check(nj_isbool(0, m), "istypeof"); }
  else { sb("fun f(a, b: "); tt(t); sb(") { out(1); return 1; } x=f(0,"); vt(v); sb("); out(2);"); bool ok = sb_run(); sym_check(ok == m, "an annotated parameter accepts exactly the values of its type"); sym_check(nj_nout == (m ? 2 : 0), "a rejected call doesn't run the body"); if (!ok) sym_check(nj_err.occurred, "error reported"); }
  if (m) sym_cover("match"); else sym_cover("mismatch"); sym_out(m); nj_end();
}
// Defaults apply before the assertion.
void t_default_types(void) {
  boot(); nt = nv = 0; TT *t = gt((int)sym_param("tf", 1)); VV *d = gv(0), *v = gv(0); int miss = sym_choose("missing", 2); VV *eff = miss || v->k == N_ ? d : v; bool m = match(t, eff);
  sb0(); sb("fun f(a: "); tt(t); sb(" = "); vt(d); sb(") { out(type(a)); return 1; } x=f("); if (!miss) vt(v); sb("); out(2);"); bool ok = sb_run();
  sym_check(ok == m && nj_nout == (m ? 2 : 0), "the default value is checked like an argument"); if (m) sym_cover("ok"); else sym_cover("rejected"); sym_out(ok); nj_end();
}
// type() and typename() identify the type of every value.
void t_type_of(void) {
  boot(); nv = 0; VV *v = gv(2); sb0(); sb("v="); vt(v); sb("; out(type(v)=="); sb(TN[v->k]); sb(", typename(v), istypeof(type(v),v), type(v)==type(none));"); bool ok = sb_run();
  sym_check(ok && nj_nout == 4 && nj_isbool(0, 1) && nj_isstr(1, TN[v->k], strlen(TN[v->k])) && nj_isbool(2, 1) && nj_isbool(3, v->k == N_), "type of a value"); sym_cover("type"); nj_logout(); nj_end();
}
// Values that aren't types match nothing; errors raised while matching abort the program.
void t_istypeof_odd(void) {
  static const char *const P[] = {"out(istypeof(1,PI));","out(istypeof('s','s'));","out(istypeof(none,none));","out(istypeof(PF,PF));","fun f(a: 3) return 1; f(3);","out(istypeof({[1]:int},{[1]:1}));","fun f(a: {[1]:int}) return 1; f({[1]:1});","out(istypeof([1],[PI]));","out(istypeof({a:2},{a:2}));"};
  static const int E[] = {0,0,0,0,2,2,2,0,0}; boot(); int p = sym_choose("prog", 9); sb0(); sb(P[p]); sb("out(9);"); bool ok = sb_run(); 
  if (E[p] == 2) sym_check(!ok && nj_err.occurred && nj_nout == 0, "an error raised by a type assertion aborts"); else sym_check(ok && nj_nout == 2 && nj_isbool(0, 0), "a value that isn't a type matches nothing"); sym_cover("odd"); sym_out(ok); nj_end();
}
