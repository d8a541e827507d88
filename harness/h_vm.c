// C19 limits and interruption, C22 assembler, C23 executables, C24 bytecode execution.
#include "nj.h"
#include <lib/executable.h>
#include <lib/compiler/compile.h>
#include <lib/assembler/assemble.h>
#include <lib/utils/promise.h>

// ================================================================ C19: limits
static bool err_has(const char *s) { return nj_err.occurred && strstr(nj_err.message, s) != NULL; }
// The only number in the error's message, -1 if there's none or more than one; the number of calls in progress.
static int err_num(void) { int v = -1; for (const char *c = nj_err.message; *c; ) if (*c >= '0' && *c <= '9') { if (v >= 0) return -1; for (v = 0; *c >= '0' && *c <= '9'; c++) v = v * 10 + (*c - '0'); } else c++; return v; }
static int frames(void) { char *p = 0; size_t n = 0; FILE *f = open_memstream(&p, &n); Runtime_PrintStackTrace(nj_rt, f); fclose(f); int k = 0; for (size_t i = 0; i < n; i++) if (p[i] == '\n') k++; free(p); return k - 1; }
static const char *const DEPTH[] = {
  "fun f(n) { if n<1: return 0; return 1+f(n-1); } i=0; while i<%: { out(f(N)); i=i+1; }",
  "fun f(n) { if n<1: { out(0); return 0; } r=1+f(n-1); out(r); return r; } i=0; while i<%: { f(N); i=i+1; }",
  "fun g(n) { if n<1: return 0; return 1+h(n-1); } fun h(n) { if n<1: return 0; x,y=g(n-1); return 1+x; } i=0; while i<%: { out(g(N)); i=i+1; }",
  "fun mk(k) { fun c(n) { if n<1: return k; m=mk(k+1); return m(n-1); } return c; } i=0; while i<%: { m=mk(0); out(m(N)); i=i+1; }",
};
static void depth_src(int p, int reps) { sb0(); for (const char *c = DEPTH[p]; *c; c++) if (*c == '%') sbi(reps); else sbc(*c); }
// Nested calls: every depth either computes the right value, each time, or is refused each time; and if a depth works then so does any smaller one.
void t_limit_depth(void) {
  int p = (int)sym_param("prog", 0); static StaticMapSlot s[2]; s[0] = (StaticMapSlot) NJ_INT("N", 0); s[1] = (StaticMapSlot) NJ_END;
  int n = sym_choose("n", 22), reps = 1 + 29 * sym_choose("reps", 2); bool ok[2];
  for (int k = 0; k < 2; k++) { // depth n, then depth n+1
    s[0].as_int = n + k; if (!nj_boot(s)) sym_check(0, "boot"); depth_src(p, reps); ok[k] = sb_run();
    if (ok[k]) { int per = p == 1 ? n + k + 1 : 1; sym_check(nj_nout == reps * per, "every call returns"); for (int i = 0; i < nj_nout; i++) sym_check(nj_isint(i, p == 1 ? i % per : n + k), "the value of a nested call"); sym_cover("works"); }
    else { sym_check(err_has("limit"), "too deep a nesting is refused as such"); sym_check(nj_nout == 0 || p == 1, "a refused call has no value"); int lim = err_num(); sym_check(lim < 0 || lim == frames(), "the limit that's named is the one that applies"); sym_cover("refused"); }
    nj_logout(); nj_end(); }
  sym_check(ok[0] || !ok[1], "a smaller depth works too"); sym_check(ok[0] || n > 6, "a handful of nested calls works"); sym_check(!ok[1] || n < 60, "there is a limit");
}
// Values pending in an expression.
static void pend_src(int form, int n) {
  sb0(); switch (form) {
  case 0: sb("out("); for (int i = 1; i < n; i++) sb("A+("); sb("A"); for (int i = 1; i < n; i++) sb(")"); sb(");"); break;
  case 1: sb("l="); for (int i = 0; i < n; i++) sb("["); sb("A"); for (int i = 0; i < n; i++) sb("]"); sb("; x=l; i=0; while i<"); sbi(n); sb(": { x=x[0]; i=i+1; } out(x);"); break;
  case 2: sb("out("); for (int i = 0; i < n; i++) { if (i) sb(","); sb("A+"); sbi(i); } sb(");"); break;
  case 3: sb("l="); for (int i = 0; i < n; i++) sb("{a:"); sb("A"); for (int i = 0; i < n; i++) sb("}"); sb("; x=l; i=0; while i<"); sbi(n); sb(": { x=x.a; i=i+1; } out(x);"); break;
  case 4: sb("fun d(x) return x; out("); for (int i = 0; i < n; i++) sb("d("); sb("A"); for (int i = 0; i < n; i++) sb(")"); sb(");"); break;
  case 5: sb("l=["); for (int i = 0; i < n; i++) { if (i) sb(","); sb("A+"); sbi(i); } sb("]; i=0; while i<"); sbi(n); sb(": { out(l[i]); i=i+1; }"); break;
  default: sb("fun f("); for (int i = 0; i < n; i++) { if (i) sb(","); sb("p"); sbi(i); } sb(") return p"); sbi(n - 1); sb(";out(f("); for (int i = 0; i < n; i++) { if (i) sb(","); sb("A+"); sbi(i); } sb("));"); break; } }
static bool pend_ok(int form, int n, long long a) { switch (form) {
  case 0: return nj_nout == 1 && nj_isint(0, a * n); case 1: case 3: case 4: return nj_nout == 1 && nj_isint(0, a);
  case 2: case 5: if (nj_nout != n) return false; for (int i = 0; i < n; i++) if (!nj_isint(i, a + i)) return false; return true;
  default: return nj_nout == 1 && nj_isint(0, a + n - 1); } }
void t_limit_pending(void) {
  int form = (int)sym_param("form", 0); static StaticMapSlot s[2]; long long a = sym_range("a", -1000000, 1000000); s[0] = (StaticMapSlot) NJ_INT("A", a); s[1] = (StaticMapSlot) NJ_END;
  int n = 1 + sym_choose("n", 36); bool ok[2];
  for (int k = 0; k < 2; k++) { if (!nj_boot(s)) sym_check(0, "boot"); pend_src(form, n + k); ok[k] = sb_run();
    if (ok[k]) { sym_check(pend_ok(form, n + k, a), "the value of the expression"); sym_cover("works"); } else { sym_check(nj_err.occurred && nj_nout == 0, "an expression that's too big is refused"); if (form == 0 && k && ok[0]) { int lim = err_num(); sym_check(lim < 0 || lim == n, "the limit that's named is the one that applies"); } sym_cover("refused"); } nj_end(); }
  sym_check(ok[0] || !ok[1], "a smaller expression works too"); sym_check(ok[0] || n > 6, "a handful of pending values works");
}
void t_limit_stack(void) { // any stack size: the same output, or an error
  static const int SZ[] = {0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20, 24, 32, 48, 64}; static const char *P[] = { "out(A); fun f(x) return x+A; out(f(f(A)),[A,B,[f(B)]][2][0]);", "fun f(n,x) { if n<1: return x; y=f(n-1,x); return y; } out(1+(2+(3+f(4,A)))); out(B);", "m={a:A,b:{c:[1,2,B]}}; out(m.b.c[2]); x=m.a; y=m.b; out(x,y.c[1]);" };
  static StaticMapSlot s[3]; s[0] = (StaticMapSlot) NJ_INT("A", sym_range("a", -1000, 1000)); s[1] = (StaticMapSlot) NJ_INT("B", sym_range("b", -1000, 1000)); s[2] = (StaticMapSlot) NJ_END; int p = sym_choose("p", 3);
  RuntimeConfig c = Runtime_GetDefaultConfigs(); c.heap = 1 << 20; if (!nj_boot_cfg(c, s)) sym_check(0, "boot"); bool ok = nj_run(P[p]); sym_check(ok, "the default stack is enough"); static NV r[64]; int rn = nj_nout; memcpy(r, nj_out, sizeof(NV) * (rn < 64 ? rn : 64)); nj_end();
  int z = sym_choose("z", 16); c.stack = SZ[z]; bool b = nj_boot_cfg(c, s); ok = b && nj_run(P[p]); if (ok) { sym_check(nj_nout == rn, "same output"); sym_cover("fits"); } else { sym_check(nj_err.occurred && nj_nout <= rn, "running out of stack is an error"); sym_check(SZ[z] < 48, "48 slots are enough"); sym_cover("out of stack"); }
  for (int i = 0; i < nj_nout; i++) sym_check(nj_isint(i, r[i].i), "same values"); nj_end();
}
// ---- interruption
static long long st_n, st_k; static bool st_on; static int st_seen; static int st_mode;
static bool st_cb(Runtime *r, void *d) { (void)d; if (!st_on) return true; st_n++; if (st_n == st_k) { st_seen = nj_nout; if (st_mode == 0) return false; Runtime_Interrupt(r); } return true; }
static int st_bin(Runtime *r, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *e) { (void)argv; (void)argc; (void)rets; (void)e; if (st_mode == 2 && st_on) { st_seen = nj_nout; Runtime_Interrupt(r); } return 0; }
static const char *const STP[] = {
  "out(1); i=0; while i<3: { out(i); stop(); i=i+1; } out(9);", "fun f(n) { out(n); if n<1: return 0; r=f(n-1); stop(); out(r); return r+1; } out(f(3)); out(7);",
  "do { out(1); l=[1,2]; l[2]=3; out(count(l)); stop(); } while false; x={a:out(2)}; out(x.a);", "while true: { out(1); stop(); }", "fun f() { while true: { stop(); out(1); } } f();", "fun f(n) f(0); i=0; while true: { out(i); stop(); i=i+1; if i==4: f(1); }", "a=import('stopmod.noja'); out(a.x); stop(); out(2);" };
static int st_lim[] = {0, 0, 0, 60, 60, 60, 0};
static bool st_run(int p, long long k, int mode) { static StaticMapSlot s[] = { NJ_FUN("stop", st_bin, 0), NJ_END }; st_on = false; st_n = 0; st_k = k; st_mode = mode; st_seen = -1; RuntimeConfig c = Runtime_GetDefaultConfigs(); c.heap = 1 << 20; c.callback.func = st_cb; nsym_mkfile("stopmod.noja", "out(5); x=[3]; out(6);", 22); if (!nj_boot_cfg(c, s)) sym_check(0, "boot"); st_on = true; bool ok = nj_run(STP[p]); st_on = false; return ok; }
// The host stops the program after any instruction: nothing runs after it.
void t_stop_anywhere(void) {
  int p = (int)sym_param("prog", 0), mode = sym_choose("mode", 2); static NV ref[NJ_MAXOUT]; int n = st_lim[p] ? st_lim[p] : 0, rn = 0;
  if (n == 0) { bool ok = st_run(p, -1, 0); sym_check(ok, "runs when not stopped"); n = (int)st_n; rn = nj_nout; memcpy(ref, nj_out, sizeof(NV) * rn); nj_end(); }
  int k = 1 + sym_choose("k", n + 1); bool ok = st_run(p, k, mode);
  if (st_seen < 0) { sym_check(ok && k > st_n, "a program that isn't stopped ends"); sym_check(nj_nout == rn, "and has all of its output"); sym_cover("ran"); }
  else if (mode == 1 && n - k < 2 && ok) sym_cover("ended anyway"); // a request takes effect after at most one more instruction
  else { sym_check(!ok && err_has("Forced abortion"), "a stopped program fails as such"); sym_check(st_n <= k + mode, "nothing runs after the stop"); sym_check(mode ? nj_nout <= st_seen + 2 : nj_nout == st_seen, "a stopped program has no further output"); sym_cover("stopped"); }
  if (!st_lim[p]) for (int i = 0; i < nj_nout; i++) sym_check(ref[i].tag == nj_out[i].tag && ref[i].i == nj_out[i].i, "output before the stop"); nj_logout(); nj_end();
}
void t_stop_builtin(void) { // interrupted from inside of a call
  int p = sym_choose("prog", 7); bool ok = st_run(p, -1, 2); if (p == 6) sym_check(nj_nout == 3, "import ran"); sym_check(!ok && err_has("Forced abortion"), "an interrupted program fails as such"); sym_check(st_seen >= 0 && nj_nout == st_seen, "nothing runs after the interruption"); sym_cover("stopped"); nj_logout(); nj_end();
}
// Consecutive programs in one runtime don't see each other and don't use it up.
void t_rerun(void) {
  static StaticMapSlot s[3]; long long a = sym_i64("a"); s[0] = (StaticMapSlot) NJ_INT("A", a); s[1] = (StaticMapSlot) NJ_END; if (!nj_boot(s)) sym_check(0, "boot"); int n = 1 + sym_choose("n", 40); static const char *P[] = { "x=A; out(x);", "fun f(n) { if n<1: return A; return f(n-1); } x=f(5); out(x);", "l=[A,[A]]; x={a:l}; out(x.a[1][0]);" };
  for (int i = 0; i < n; i++) { bool ok = nj_run(P[i % 3]); sym_check(ok, "a program runs again"); sym_check(nj_isint(i, a), "same output"); } bool ok = nj_run("out(x);"); sym_check(!ok && err_has("undefined variable"), "variables of another program aren't visible"); sym_cover("rerun"); nj_end();
}

// ================================================================ C24: bytecode
enum { M_NONE, M_BOOL, M_INT, M_FLT, M_STR, M_LIST, M_MAP, M_TYPE, M_FUN0, M_FUN1, M_OUT, M_ANY };
typedef struct { int tag; long long i; int id; } MV; // id: which list or map; for types: the tag
typedef struct { MV k[8], v[8]; int n; } MC;
static MV st[40]; static int sp; static MC col[12]; static int ncol; static bool m_err, m_dc, m_done; static MV var_v; static bool var_set; static int m_outs; static MV m_out[4]; static int m_nout, m_jumped; static long long mA, mB; static bool mT;
static MV mv(int t, long long i) { return (MV) { t, i, 0 }; }
static void mpush(MV v) { if (sp < 40) st[sp++] = v; }
static MV mnew(int t) { MV v = mv(t, 0); v.id = ncol; col[ncol++].n = 0; return v; }
static bool need(int n) { if (sp < n) { m_err = true; return false; } return true; }
static bool simple(MV v) { return v.tag == M_NONE || v.tag == M_BOOL || v.tag == M_INT || v.tag == M_STR; }
static bool meq(MV a, MV b) { return a.tag == b.tag && (a.tag == M_NONE || a.i == b.i); }
static void minsert(MV c, MV k, MV v) {
  if (c.tag == M_LIST) { if (k.tag != M_INT) { m_err = true; return; } MC *l = &col[c.id]; for (int i = 0; i <= l->n && i < 8; i++) if (k.i == i) { l->v[i] = v; if (i == l->n) l->n++; return; } m_err = true; }
  else if (c.tag == M_MAP) { if (!simple(k)) { m_dc = true; return; } MC *l = &col[c.id]; for (int i = 0; i < l->n; i++) if (meq(l->k[i], k)) { l->v[i] = v; return; } l->k[l->n] = k; l->v[l->n++] = v; }
  else m_err = true; }
static MV mselect(MV c, MV k) {
  if (c.tag == M_LIST) { if (k.tag == M_INT) for (int i = 0; i < col[c.id].n; i++) if (k.i == i) return col[c.id].v[i]; return mv(M_NONE, 0); }
  if (c.tag == M_MAP) { if (!simple(k)) m_dc = true; for (int i = 0; i < col[c.id].n; i++) if (meq(col[c.id].k[i], k)) return col[c.id].v[i]; return mv(M_NONE, 0); }
  if (c.tag == M_STR || c.tag == M_ANY) m_dc = true; return mv(M_NONE, 0); }
static const char *const OPS[] = { "NOPE", "POS", "NEG", "NOT", "ADD", "SUB", "MUL", "DIV", "MOD", "EQL", "NQL", "LSS", "GRT", "LEQ", "GEQ", "NLB", "STP", "ASS \"v\"", "POP 0", "POP 1", "POP 3", "POP -1",
  "CALL 0,1", "CALL 1,1", "CALL 2,3", "CALL 40,1", "CALL -1,1", "SELECT", "SELECT2", "INSERT", "INSERT2", "PUSHINT 7", "PUSHFLT 1.5", "PUSHSTR \"k\"", "PUSHVAR \"A\"", "PUSHVAR \"zz\"", "PUSHVAR \"v\"", "PUSHTRU", "PUSHFLS", "PUSHNNE", "PUSHFUN F,0,\"f\"", "PUSHFUN G,1,\"g\"", "PUSHLST 0", "PUSHLST -1", "PUSHLST 3", "PUSHMAP 0", "PUSHMAP -1", "PUSHTYP", "PUSHNNETYP", "RETURN ", "EXIT", "JUMPIFANDPOP E", "JUMPIFNOTANDPOP E", "JUMP E", "CHECKTYPE 0,\"x\"", "PUSHVAR \"out\"", "PUSHVAR \"B\"", "PUSHVAR \"T\"" };
#define NOPS ((int)(sizeof OPS / sizeof OPS[0]))
enum { O_NOPE, O_POS, O_NEG, O_NOT, O_ADD, O_SUB, O_MUL, O_DIV, O_MOD, O_EQL, O_NQL, O_LSS, O_GRT, O_LEQ, O_GEQ, O_NLB, O_STP, O_ASS, O_POP0, O_POP1, O_POP3, O_POPN, O_CALL0, O_CALL1, O_CALL2, O_CALL40, O_CALLN, O_SEL, O_SEL2, O_INS, O_INS2, O_PINT, O_PFLT, O_PSTR, O_PA, O_PZZ, O_PV, O_PT, O_PF, O_PN, O_FUN0, O_FUN1, O_L0, O_LN, O_L3, O_M0, O_MN, O_TYP, O_NTYP, O_RET, O_EXIT, O_JT, O_JF, O_J, O_CHK, O_POUT, O_PB, O_PTT };
static void mcall(int argc, int retc) {
  if (!need(1)) return; MV f = st[--sp]; if (!need(argc)) return; MV a[3]; for (int i = 0; i < argc; i++) a[i] = st[--sp]; MV r[2]; int n = 0;
  if (f.tag == M_FUN0) { r[0] = mv(M_INT, 5); n = 1; } else if (f.tag == M_FUN1) { r[0] = argc ? a[0] : mv(M_NONE, 0); r[1] = mv(M_INT, mA); n = 2; } else if (f.tag == M_OUT) { for (int i = 0; i < argc; i++) m_out[m_nout++ & 3] = a[i]; m_outs++; } else if (f.tag == M_ANY || f.tag == M_TYPE) { m_dc = true; return; } else { m_err = true; return; }
  for (int i = 0; i < retc; i++) mpush(i < n ? r[i] : mv(M_NONE, 0)); }
static void mstep(int op) {
  switch (op) {
  case O_NOPE: return; case O_POS: need(1); return;
  case O_NEG: if (!need(1)) return; if (st[sp-1].tag == M_FLT) m_dc = true; else if (st[sp-1].tag != M_INT || __builtin_sub_overflow(0LL, st[sp-1].i, &st[sp-1].i)) m_err = true; return;
  case O_NOT: if (!need(1)) return; if (st[sp-1].tag != M_BOOL) m_err = true; else st[sp-1].i = !st[sp-1].i; return;
  case O_NLB: if (!need(1)) return; if (st[sp-1].tag != M_TYPE) m_dc = true; st[sp-1] = mv(M_ANY, 0); return;
  case O_STP: if (!need(2)) return; if (st[sp-1].tag != M_TYPE || st[sp-2].tag != M_TYPE) m_dc = true; st[--sp - 1] = mv(M_ANY, 0); return;
  case O_ADD: case O_SUB: case O_MUL: case O_DIV: case O_MOD: case O_LSS: case O_GRT: case O_LEQ: case O_GEQ: { if (!need(2)) return; MV b = st[--sp], a = st[--sp]; if ((a.tag == M_FLT || b.tag == M_FLT) && (a.tag == M_INT || a.tag == M_FLT) && (b.tag == M_INT || b.tag == M_FLT)) { m_dc = true; return; } if (a.tag != M_INT || b.tag != M_INT) { m_err = true; return; }
    long long r = 0; bool e = false; switch (op) { case O_ADD: e = __builtin_add_overflow(a.i, b.i, &r); break; case O_SUB: e = __builtin_sub_overflow(a.i, b.i, &r); break; case O_MUL: e = __builtin_mul_overflow(a.i, b.i, &r); break; case O_DIV: if (b.i == 0 || (b.i == -1 && a.i == INT64_MIN)) e = true; else r = b.i == -1 ? -a.i : a.i / b.i; break; case O_MOD: if (b.i == 0) e = true; else r = b.i == -1 ? 0 : a.i % b.i; break; case O_LSS: r = a.i < b.i; break; case O_GRT: r = a.i > b.i; break; case O_LEQ: r = a.i <= b.i; break; default: r = a.i >= b.i; }
    if (e) m_err = true; else mpush(mv(op >= O_LSS ? M_BOOL : M_INT, r)); return; }
  case O_EQL: case O_NQL: { if (!need(2)) return; MV b = st[--sp], a = st[--sp]; if (!simple(a) || !simple(b)) { m_dc = true; return; } mpush(mv(M_BOOL, meq(a, b) == (op == O_EQL))); return; }
  case O_ASS: if (!need(1)) return; var_v = st[sp-1]; var_set = true; return;
  case O_POP0: return; case O_POP1: if (need(1)) sp--; return; case O_POP3: if (need(3)) sp -= 3; return; case O_POPN: m_err = true; return;
  case O_CALL0: mcall(0, 1); return; case O_CALL1: mcall(1, 1); return; case O_CALL2: mcall(2, 3); return; case O_CALL40: case O_CALLN: m_err = true; return;
  case O_SEL: { if (!need(2)) return; MV k = st[--sp], c = st[--sp]; mpush(mselect(c, k)); return; }
  case O_SEL2: { if (!need(2)) return; MV k = st[--sp], c = st[sp-1]; mpush(mselect(c, k)); return; }
  case O_INS: { if (!need(3)) return; MV v = st[--sp], k = st[--sp]; minsert(st[sp-1], k, v); return; }
  case O_INS2: { if (!need(3)) return; MV k = st[--sp], c = st[--sp]; minsert(c, k, st[sp-1]); return; }
  case O_PINT: mpush(mv(M_INT, 7)); return; case O_PFLT: mpush(mv(M_FLT, 0)); return; case O_PSTR: mpush(mv(M_STR, 0)); return; case O_PA: mpush(mv(M_INT, mA)); return; case O_PB: mpush(mv(M_INT, mB)); return; case O_PTT: mpush(mv(M_BOOL, mT)); return; case O_PZZ: m_err = true; return; case O_PV: if (var_set) mpush(var_v); else m_err = true; return;
  case O_PT: case O_PF: mpush(mv(M_BOOL, op == O_PT)); return; case O_PN: mpush(mv(M_NONE, 0)); return; case O_FUN0: mpush(mv(M_FUN0, 0)); return; case O_FUN1: mpush(mv(M_FUN1, 0)); return; case O_POUT: mpush(mv(M_OUT, 0)); return;
  case O_L0: case O_LN: case O_L3: mpush(mnew(M_LIST)); return; case O_M0: case O_MN: mpush(mnew(M_MAP)); return;
  case O_TYP: if (!need(1)) return; { MV t = mv(M_TYPE, 0); t.id = st[sp-1].tag; mpush(t); } return; case O_NTYP: { MV t = mv(M_TYPE, 0); t.id = M_NONE; mpush(t); } return;
  case O_RET: m_done = true; return; case O_EXIT: mpush(mv(M_ANY, 0)); m_done = true; return;
  case O_JT: case O_JF: if (!need(1)) return; { MV t = st[--sp]; if (t.tag != M_BOOL) { m_err = true; return; } if ((t.i != 0) == (op == O_JT)) m_jumped = 1; } return; case O_J: m_jumped = 1; return;
  case O_CHK: if (!need(2)) return; { MV t = st[--sp]; if (t.tag != M_TYPE) m_dc = true; else if (t.id == M_FUN0 || t.id == M_FUN1 || t.id == M_OUT || t.id == M_ANY || st[sp-1].tag >= M_TYPE) m_dc = true; else if (t.id == M_TYPE || t.id != st[sp-1].tag) m_err = true; } return; } }
static bool is_same(MV m, Object *o, int d) {
  Error e; Error_Init(&e); Heap *h = Runtime_GetHeap(nj_rt);
  switch (m.tag) { case M_NONE: return Object_IsNone(o); case M_BOOL: return Object_IsBool(o) && Object_GetBool(o) == (m.i != 0); case M_INT: return Object_IsInt(o) && Object_GetInt(o) == m.i; case M_FLT: return Object_IsFloat(o) && Object_GetFloat(o) == 1.5; case M_STR: return Object_IsString(o) && !strcmp(Object_GetString(o, 0), "k");
  case M_LIST: case M_MAP: if (m.tag == M_LIST ? !Object_IsList(o) : !Object_IsMap(o)) return false; if (Object_Count(o, &e) != col[m.id].n) return false; if (d > 2) return true;
    for (int i = 0; i < col[m.id].n; i++) { MV k = col[m.id].k[i]; Object *ko = m.tag == M_LIST ? Object_FromInt(i, h, &e) : k.tag == M_NONE ? Object_NewNone(h, &e) : k.tag == M_BOOL ? Object_FromBool(k.i, h, &e) : k.tag == M_INT ? Object_FromInt(k.i, h, &e) : Object_FromString("k", 1, h, &e); Object *v = Object_Select(o, ko, h, &e); if (!v || !is_same(col[m.id].v[i], v, d + 1)) return false; } return true;
  case M_TYPE: if (m.id == M_INT) return o == (Object*) Object_GetType(Object_FromInt(1, h, &e)); if (m.id == M_BOOL) return o == (Object*) Object_GetType(Object_FromBool(1, h, &e)); if (m.id == M_STR) return o == (Object*) Object_GetType(Object_FromString("x", 1, h, &e)); if (m.id == M_NONE) return o == (Object*) Object_GetNoneType(); return !Object_IsInt(o) && !Object_IsNone(o);
  default: return o != NULL; } }
static const unsigned char PRE[][8] = { {0}, {O_PA, O_PB, 255}, {O_PA, O_PTT, 255}, {O_L0, O_PF, O_POP1, O_PA, O_PB, 255}, {O_PSTR, O_M0, O_PSTR, O_PA, O_INS, 255}, {O_PTT, 255}, {O_PB, O_L3, O_PA, 255}, {O_PSTR, O_PB, O_TYP, 255}, {O_PA, O_POUT, 255}, {O_PA, O_FUN1, 255}, {O_PFLT, O_PN, O_FUN0, 255}, {O_M0, O_PTT, O_PB, 255}, {O_LN, O_PA, O_PN, 255} };
#define NPRE ((int)(sizeof PRE / sizeof PRE[0]))
static void emit_op(int op) { sb(OPS[op]); if (op == O_RET) sbi(sp); sb("; "); }
void t_bytecode(void) {
  int p = (int)sym_param("pre", 0), n = (int)sym_param("n", 2); static StaticMapSlot s[4]; mA = sym_i64("a"); mB = sym_i64("b"); mT = sym_bool("t"); s[0] = (StaticMapSlot) NJ_INT("A", mA); s[1] = (StaticMapSlot) NJ_INT("B", mB); s[2] = (StaticMapSlot) NJ_BOOL("T", mT); s[3] = (StaticMapSlot) NJ_END; if (!nj_boot(s)) sym_check(0, "boot");
  sp = ncol = 0; m_err = m_dc = m_done = var_set = false; m_outs = m_nout = m_jumped = 0; sb0(); if (p) for (int i = 0; PRE[p][i] != 255; i++) { emit_op(PRE[p][i]); mstep(PRE[p][i]); }
  for (int i = 0; i < n && !m_err && !m_dc && !m_done; i++) { int op = sym_choose("op", NOPS); emit_op(op); if (m_jumped) continue; mstep(op); }
  int known = m_err || m_done || m_dc; sb("E: "); if (known) sb("NOPE; "); else { sb("RETURN "); sbi(sp); sb("; "); } if (m_done && 0) sb(""); sb("EXIT; F: PUSHINT 5; RETURN 1; G: PUSHVAR \"A\"; RETURN 2;");
  Object *r[MAX_RETS]; int rc = runBytecodeStringEx(nj_rt, "code", nj_src, r, &nj_err); sym_check((rc < 0) == nj_err.occurred, "a run fails exactly with an error");
  if (m_dc) { sym_cover("unspecified"); sym_check(rc <= MAX_RETS, "results"); }
  else if (m_err) { sym_check(rc < 0, "an impossible instruction aborts"); sym_cover("aborted"); }
  else { sym_check(rc == sp, "an instruction's effect on the stack's size"); if (rc == sp) for (int i = 0; i < sp; i++) sym_check(is_same(st[i], r[i], 0), "an instruction's effect on the stack"); sym_check(nj_outcalls == m_outs, "calls"); if (m_nout == nj_nout) for (int i = 0; i < m_nout; i++) { if (m_out[i].tag == M_INT) sym_check(nj_isint(i, m_out[i].i), "argument"); } else sym_check(0, "arguments"); if (m_done && rc > 0 && st[sp-1].tag == M_ANY && Object_IsMap(r[rc-1])) { Error e; Error_Init(&e); sym_check(Object_Count(r[rc-1], &e) == (var_set ? 1 : 0), "EXIT returns the variables"); } sym_cover("returned"); }
  sym_out(rc); nj_logout(); nj_end();
}
// Every instruction that takes several operands, on every combination of kinds of values.
static const unsigned char BV[] = { O_PA, O_PTT, O_PSTR, O_PN, O_L0, O_M0, O_PFLT, O_NTYP, O_FUN1, O_POUT };
static const unsigned char BO[] = { O_INS, O_INS2, O_SEL, O_SEL2, O_CHK, O_ADD, O_EQL, O_NQL, O_ASS, O_POP3, O_CALL1, O_CALL2, O_STP, O_LSS, O_CALL0, O_MUL };
void t_bytecode3(void) {
  int oi = (int)sym_param("op", 0), n = (int)sym_param("n", 3), two = (int)sym_param("two", 0); static StaticMapSlot s[4]; mA = sym_i64("a"); mB = sym_i64("b"); mT = sym_bool("t"); s[0] = (StaticMapSlot) NJ_INT("A", mA); s[1] = (StaticMapSlot) NJ_INT("B", mB); s[2] = (StaticMapSlot) NJ_BOOL("T", mT); s[3] = (StaticMapSlot) NJ_END; if (!nj_boot(s)) sym_check(0, "boot");
  sp = ncol = 0; m_err = m_dc = m_done = var_set = false; m_outs = m_nout = m_jumped = 0; sb0(); for (int i = 0; i < n; i++) { int o = BV[sym_choose("v", sizeof BV)]; emit_op(o); mstep(o); } emit_op(BO[oi]); mstep(BO[oi]); if (two && !m_err && !m_dc) { int o = BO[sym_choose("second", sizeof BO)]; emit_op(o); mstep(o); }
  if (m_err || m_dc) sb("E: NOPE;"); else { sb("RETURN "); sbi(sp); sb(";"); } sb(" F: PUSHINT 5; RETURN 1; G: PUSHVAR \"A\"; RETURN 2;");
  Object *r[MAX_RETS]; int rc = runBytecodeStringEx(nj_rt, "code", nj_src, r, &nj_err); sym_check((rc < 0) == nj_err.occurred, "a run fails exactly with an error");
  if (m_dc) { sym_cover("unspecified"); sym_check(rc <= MAX_RETS, "results"); } else if (m_err) { sym_check(rc < 0, "an impossible instruction aborts"); sym_cover("aborted"); }
  else { sym_check(rc == sp, "an instruction's effect on the stack's size"); if (rc == sp) for (int i = 0; i < sp; i++) sym_check(is_same(st[i], r[i], 0), "an instruction's effect on the stack"); sym_check(nj_outcalls == m_outs && nj_nout == m_nout, "calls"); sym_cover("returned"); }
  sym_out(rc); nj_logout(); nj_end();
}
