// C01-C05: operators, end to end through source -> compile -> run.
#include "nj.h"
static const char *const OPS[] = {"+","-","*","/","%","<",">","<=",">=","==","!=","and","or"};
// Every pair of 64-bit integers, every integer operator.
void t_int_binop(void) {
  long long a = sym_i64("a"), b = sym_i64("b"); int op = (int)sym_param("op", 0);
  StaticMapSlot in[] = { NJ_INT("A", a), NJ_INT("B", b), NJ_END };
  if (!nj_boot(in)) sym_check(0, "boot");
  sb0(); sb("out(A"); sb(OPS[op]); sb("B);"); bool ok = sb_run();
  long long r = 0; bool ovf = false;
  switch (op) {
    case 0: ovf = __builtin_add_overflow(a, b, &r); break;
    case 1: ovf = __builtin_sub_overflow(a, b, &r); break;
    case 2: ovf = __builtin_mul_overflow(a, b, &r); break;
    case 3: if (b == 0 || (a == INT64_MIN && b == -1)) ovf = true; else r = a / b; break;
    case 4: if (b == 0 || (a == INT64_MIN && b == -1)) ovf = true; else r = a % b; break;
  }
  // INT64_MIN % -1 is mathematically 0; aborting is accepted too.
  bool either = op == 4 && a == INT64_MIN && b == -1;
  if (ok) { sym_check(nj_nout == 1 && nj_out[0].tag == V_INT, "int op int is an int"); 
            sym_check(either ? nj_out[0].i == 0 : !ovf, "overflow or division by zero must abort");
            if (!either) sym_check(nj_out[0].i == r, "exact integer result"); sym_cover("result"); }
  else { sym_check(ovf || either, "a representable result must not abort"); sym_check(nj_err.occurred && nj_nout == 0, "abort reports an error and produces no value"); sym_cover("abort"); }
  sym_out(ok); if (ok) sym_out(nj_out[0].i); nj_end();
}
// Unary operators on every integer; double application.
void t_int_unop(void) {
  static const char *const F[] = {"out(-A);","out(+A);","out(--A);","out(-+A);","out(0-A);","out(-A*-1);"};
  long long a = sym_i64("a"); int f = sym_choose("form", 6);
  StaticMapSlot in[] = { NJ_INT("A", a), NJ_END };
  if (!nj_boot(in)) sym_check(0, "boot");
  bool ok = nj_run(F[f]); bool min = a == INT64_MIN;
  long long e = f == 0 || f == 3 || f == 4 ? (long long)(0ULL - (unsigned long long)a) : a;
  if (f == 1) min = false;
  sym_check(ok == !min, "negating aborts exactly when the result is not representable");
  if (ok) { sym_check(nj_isint(0, e), "exact negation"); sym_cover("result"); } else { sym_check(nj_err.occurred && nj_nout == 0, "abort reports an error"); sym_cover("abort"); }
  sym_out(ok); nj_end();
}
// Chains: an overflow anywhere aborts the whole evaluation, and results feed the next operator exactly.
void t_int_chain(void) {
  long long v[3]; for (int i = 0; i < 3; i++) v[i] = sym_i64("v"); int o1 = (int)sym_param("op", 0) % 2, o2 = (int)sym_param("op", 0) / 2;
  StaticMapSlot in[] = { NJ_INT("A", v[0]), NJ_INT("B", v[1]), NJ_INT("C", v[2]), NJ_END };
  if (!nj_boot(in)) sym_check(0, "boot");
  sb0(); sb("x = A"); sb(OPS[o1]); sb("B; out(x); out(x"); sb(OPS[o2]); sb("C);"); bool ok = sb_run();
  long long x, y = 0; bool o = o1 ? __builtin_sub_overflow(v[0], v[1], &x) : __builtin_add_overflow(v[0], v[1], &x);
  bool o_2 = o ? true : o2 ? __builtin_sub_overflow(x, v[2], &y) : __builtin_add_overflow(x, v[2], &y);
  sym_check(ok == !o_2, "the program aborts exactly when a step overflows");
  sym_check(nj_nout == (o ? 0 : o_2 ? 1 : 2), "evaluation stops at the failing step");
  if (!o) sym_check(nj_isint(0, x), "intermediate result");
  if (ok) { sym_check(nj_isint(1, y), "final result"); sym_cover("ok"); } else sym_cover("abort");
  sym_out(ok); nj_end();
}
// ---------------------------------------------------------------- C02
static bool f_known(int op, double a, double b, double *r) { // false: must abort
  switch (op) { case 0: *r = a + b; return true; case 1: *r = a - b; return true; case 2: *r = a * b; return true; default: if (b == 0) return false; *r = a / b; return true; }
}
void t_flt_binop(void) {
  int op = (int)sym_param("op", 0) % 4, mix = (int)sym_param("op", 0) / 4; // mix 0 float,float  1 int,float  2 float,int
  double a = sym_f64("a"), b = sym_f64("b"); long long i = sym_i64("i");
  if (mix == 1) a = (double)i; if (mix == 2) b = (double)i;
  StaticMapSlot in[] = { NJ_FLT("FA", a), NJ_FLT("FB", b), NJ_INT("I", i), NJ_END };
  if (!nj_boot(in)) sym_check(0, "boot");
  sb0(); sb("out("); sb(mix == 1 ? "I" : "FA"); sb(OPS[op]); sb(mix == 2 ? "I" : "FB"); sb(");"); bool ok = sb_run();
  double e = 0; bool d = f_known(op, a, b, &e);
  sym_check(ok == d, "float arithmetic aborts exactly on division by zero");
  if (ok) { sym_check(nj_nout == 1 && nj_out[0].tag == V_FLOAT, "an operand is a float, so the result is a float"); sym_check(nj_sameflt(nj_out[0].f, e), "IEEE double result"); sym_cover("result"); }
  else sym_check(nj_err.occurred && nj_nout == 0, "abort reports an error");
  sym_out(ok); nj_end();
}
void t_flt_unop(void) {
  double a = sym_f64("a"); int f = sym_choose("form", 3);
  StaticMapSlot in[] = { NJ_FLT("A", a), NJ_END };
  if (!nj_boot(in)) sym_check(0, "boot");
  bool ok = nj_run(f == 0 ? "out(-A);" : f == 1 ? "out(+A);" : "out(--A);");
  sym_check(ok && nj_nout == 1 && nj_out[0].tag == V_FLOAT, "unary operators on floats never abort");
  if (ok) sym_check(nj_sameflt(nj_out[0].f, f == 0 ? -a : a), "sign"); sym_cover("unop"); sym_out(ok); nj_end();
}
// Operands of every pair of kinds.
static const char *const KIND[] = {"none","B","I","F","S","[I]","{a:I}","int","f","buffer.new(3)","print"};
enum { K_NONE, K_BOOL, K_INT, K_FLT, K_STR, K_LIST, K_MAP, K_TYPE, K_FUN, K_BUF, K_NAT, K_N };
static StaticMapSlot kslots[6];
static void kboot(const char *tag, char *str) {
  for (int k = 0; k < 2; k++) sym_assume((unsigned char)str[k] < 128);
  StaticMapSlot in[] = { NJ_BOOL("B", sym_bool("b")), NJ_INT("I", sym_i64("i")), NJ_FLT("F", sym_f64("f")), NJ_STR("S", str, 2), NJ_END };
  memcpy(kslots, in, sizeof in);
  if (!nj_boot(kslots)) sym_check(0, "boot");
}
void t_arith_kinds(void) {
  char s[3]; sym_bytes(s, 2, "s"); s[2] = 0; kboot("", s);
  int a = sym_choose("ka", K_N), b = sym_choose("kb", K_N), op = sym_choose("op", 9);
  bool na = a == K_INT || a == K_FLT, nb = b == K_INT || b == K_FLT;
  if (na && nb && !(op == 4 && (a == K_FLT || b == K_FLT))) sym_end();
  sb0(); sb("fun f() return 1; x="); sb(KIND[a]); sb(";y="); sb(KIND[b]); sb(";out(1);z=x"); sb(OPS[op]); sb("y;out(2);"); bool ok = sb_run();
  sym_check(!ok && nj_err.occurred, "arithmetic and ordering on non-numeric operands abort");
  sym_check(nj_nout == 1, "the failing expression stops the program"); sym_cover("rejected"); sym_out(ok); nj_end();
}
void t_unary_kinds(void) {
  char s[3]; sym_bytes(s, 2, "s"); s[2] = 0; kboot("", s);
  int a = sym_choose("ka", K_N), op = sym_choose("op", 2);
  if (op == 0 ? a == K_INT || a == K_FLT : a == K_BOOL) sym_end();
  sb0(); sb("fun f() return 1; x="); sb(KIND[a]); sb(";out(1);z="); sb(op ? "not x" : "-x"); sb(";out(2);"); bool ok = sb_run();
  sym_check(!ok && nj_err.occurred && nj_nout == 1, "unary operators reject operands of the wrong type"); sym_cover("rejected"); sym_out(ok); nj_end();
}
// ---------------------------------------------------------------- C03
void t_relational(void) {
  int mix = (int)sym_param("mix", 0); // bit0: left is float, bit1: right is float
  long long i = sym_i64("i"), j = sym_i64("j"); double f = sym_f64("f"), g = sym_f64("g");
  StaticMapSlot in[] = { NJ_INT("I", i), NJ_INT("J", j), NJ_FLT("F", f), NJ_FLT("G", g), NJ_END };
  if (!nj_boot(in)) sym_check(0, "boot");
  const char *l = mix & 1 ? "F" : "I", *r = mix & 2 ? "G" : "J"; static const char *const R[] = {"<",">","<=",">="};
  sb0(); for (int k = 0; k < 4; k++) { sb("out("); sb(l); sb(R[k]); sb(r); sb(");"); } for (int k = 0; k < 4; k++) { sb("out("); sb(r); sb(R[k]); sb(l); sb(");"); }
  bool ok = sb_run(); sym_check(ok && nj_nout == 8, "comparing numbers never aborts");
  bool lt, gt, le, ge;
  if (mix == 0) lt = i < j, gt = i > j, le = i <= j, ge = i >= j;
  else { double x = mix & 1 ? f : (double)i, y = mix & 2 ? g : (double)j; lt = x < y; gt = x > y; le = x <= y; ge = x >= y; }
  sym_check(nj_isbool(0, lt), "<"); sym_check(nj_isbool(1, gt), ">"); sym_check(nj_isbool(2, le), "<="); sym_check(nj_isbool(3, ge), ">=");
  sym_check(nj_isbool(4, gt) && nj_isbool(5, lt) && nj_isbool(6, ge) && nj_isbool(7, le), "swapping the operands mirrors the comparison");
  sym_cover("compared"); sym_out(lt * 8 + gt * 4 + le * 2 + ge); nj_end();
}
// ---------------------------------------------------------------- C04
void t_eq_scalars(void) {
  long long i = sym_i64("i"), j = sym_i64("j"); double f = sym_f64("f"), g = sym_f64("g"); bool b = sym_bool("b"), c = sym_bool("c");
  char s[4], t[4]; sym_bytes(s, 3, "s"); sym_bytes(t, 3, "t"); 
  int ls = sym_choose("ls", 4), lt = sym_choose("lt", 4);
  for (int k = 0; k < 3; k++) { sym_assume((unsigned char)s[k] < 128); sym_assume((unsigned char)t[k] < 128); }
  StaticMapSlot in[] = { NJ_INT("I", i), NJ_INT("J", j), NJ_FLT("F", f), NJ_FLT("G", g), NJ_BOOL("B", b), NJ_BOOL("C", c), NJ_STR("S", s, ls), NJ_STR("T", t, lt), NJ_END };
  if (!nj_boot(in)) sym_check(0, "boot");
  bool ok = nj_run("out(I==J,I!=J,J==I); out(F==G,F!=G,G==F); out(B==C,B!=C,C==B); out(S==T,S!=T,T==S); out(none==none,none!=none); out(I==I,F==F,B==B,S==S); out(int==int,int==float,int!=float,String==String,None==None);");
  sym_check(ok && nj_nout == 23, "comparing scalars never aborts"); if (!ok) sym_end();
  bool e = i == j; sym_check(nj_isbool(2, e) && nj_isbool(1, !e) && nj_isbool(0, e), "equality of ints");
  e = f == g; sym_check(nj_isbool(5, e) && nj_isbool(4, !e) && nj_isbool(3, e), "equality of floats");
  e = b == c; sym_check(nj_isbool(8, e) && nj_isbool(7, !e) && nj_isbool(6, e), "equality of bools");
  e = ls == lt && memcmp(s, t, ls) == 0; sym_check(nj_isbool(11, e) && nj_isbool(10, !e) && nj_isbool(9, e), "equality of strings");
  sym_check( nj_isbool(13, 0) && nj_isbool(12, 1), "none equals none");
  sym_check(nj_isbool(14, 1) && nj_isbool(15, f == f) && nj_isbool(16, 1) && nj_isbool(17, 1), "reflexive");
  sym_check(nj_isbool(18, 1) && nj_isbool(19, 0) && nj_isbool(20, 1) && nj_isbool(21, 1) && nj_isbool(22, 1), "equality of types");
  sym_cover("eq"); nj_logout(); nj_end();
}
void t_eq_kinds(void) { // values of different types are never equal
  char s[3]; sym_bytes(s, 2, "s"); s[2] = 0; kboot("", s);
  int a = sym_choose("ka", K_N), b = sym_choose("kb", K_N); if (a == b) sym_end();
  sb0(); sb("fun f() return 1; x="); sb(KIND[a]); sb(";y="); sb(KIND[b]); sb(";out(x==y,x!=y,y==x,y!=x);"); bool ok = sb_run();
  sym_check(ok && nj_nout == 4, "comparing values of different types doesn't abort");
  sym_check(nj_isbool(0, 0) && nj_isbool(1, 1) && nj_isbool(2, 0) && nj_isbool(3, 1), "values of different types are different"); sym_cover("diff"); sym_out(ok); nj_end();
}
void t_eq_all(void) { // == and != are defined on two values of any one type
  char s[3]; sym_bytes(s, 2, "s"); s[2] = 0; kboot("", s);
  int a = sym_choose("ka", K_N);
  sb0(); sb("fun f() return 1; x="); sb(KIND[a]); sb(";out(1);out(x==x,x!=x);"); bool ok = sb_run();
  sym_check(ok || a != K_LIST, "comparing lists"); sym_check(ok || a != K_MAP, "comparing maps"); sym_check(ok || a != K_BUF, "comparing buffers");
  sym_check(ok || (a != K_FUN && a != K_NAT), "comparing functions"); sym_check(ok || a == K_LIST || a == K_MAP || a == K_BUF || a == K_FUN || a == K_NAT, "comparing scalars");
  if (ok && a != K_FLT) sym_check(nj_nout == 3 && nj_isbool(1, 1) && nj_isbool(2, 0), "a value equals itself"); sym_cover("same"); sym_out(ok); nj_end();
}
// ---------------------------------------------------------------- C05
static int bcalls; static bool bvals[8];
static int bin_c(Runtime *r, Object **argv, unsigned argc, Object *rets[static MAX_RETS], Error *e) {
  long long k = Object_GetInt(argv[0]); nj_out[nj_nout].tag = V_INT; nj_out[nj_nout++].i = k; rets[0] = Object_FromBool(bvals[k], Runtime_GetHeap(r), e); return rets[0] ? 1 : -1; }
// Random boolean expressions over calls c(0..3): value and the exact sequence of evaluated operands.
static int bleaf, btrace[16], bn;
typedef struct BE BE; struct BE { int op; BE *l, *r; int leaf; }; static BE bes[32]; static int nbe;
static BE *be_gen(int depth) { BE *x = &bes[nbe++]; int k = depth == 0 ? 0 : sym_choose("node", 4); x->op = k; if (k == 0) { x->leaf = bleaf++; } else if (k == 1) x->l = be_gen(depth - 1); else { x->l = be_gen(depth - 1); x->r = be_gen(depth - 1); } return x; }
static void be_txt(BE *x) { if (x->op == 0) { sb("c("); sbi(x->leaf); sb(")"); } else if (x->op == 1) { sb("(not "); be_txt(x->l); sb(")"); } else { sb("("); be_txt(x->l); sb(x->op == 2 ? " and " : " or "); be_txt(x->r); sb(")"); } }
static bool be_eval(BE *x) { if (x->op == 0) { btrace[bn++] = x->leaf; return bvals[x->leaf]; } if (x->op == 1) return !be_eval(x->l); bool a = be_eval(x->l); if (x->op == 2) return a ? be_eval(x->r) : false; return a ? true : be_eval(x->r); }
void t_bool_expr(void) {
  StaticMapSlot in[] = { NJ_FUN("c", bin_c, 1), NJ_END }; if (!nj_boot(in)) sym_check(0, "boot");
  for (int i = 0; i < 8; i++) bvals[i] = sym_bool("v"); nbe = bleaf = bn = 0;
  BE *x = be_gen((int)sym_param("depth", 2)); int form = sym_choose("form", 3); sb0();
  if (form == 0) { sb("x="); be_txt(x); sb(";out(x);"); } else if (form == 1) { sb("if "); be_txt(x); sb(":out(true);else out(false);"); } else { sb("fun g(a) return a; out(g("); be_txt(x); sb("));"); }
  bool ok = sb_run(); bool v = be_eval(x);
  sym_check(ok && nj_nout == bn + 1, "a boolean expression never aborts and evaluates exactly the needed operands");
  for (int i = 0; i < bn; i++) sym_check(nj_out[i].i == btrace[i], "left to right, short-circuit evaluation");
  if (ok) sym_check(nj_isbool(nj_nout - 1, v), "boolean result"); sym_cover("bool"); nj_logout(); nj_end();
}
void t_bool_kinds(void) { // and/or/if/while reject conditions that aren't booleans, unless short-circuited
  char s[3]; sym_bytes(s, 2, "s"); s[2] = 0; kboot("", s);
  int a = sym_choose("ka", K_N), form = sym_choose("form", 7); if (a == K_BOOL) sym_end(); bool b = kslots[0].as_bool;
  static const char *const F[] = {"out(x and B);","out(x or B);","out(B and x);","out(B or x);","if x: out(1); else out(2);","while x: out(1);","do {out(0);} while x;"};
  sb0(); sb("fun f() return 1; x="); sb(KIND[a]); sb(";"); sb(F[form]); sb("out(9);"); bool ok = sb_run();
  bool sc = (form == 2 && !b) || (form == 3 && b);
  sym_check(ok == sc, "a condition or logic operand that isn't a bool aborts when it's evaluated");
  if (ok) { sym_check(nj_nout == 2 && nj_isbool(0, b), "short circuit ignores the right operand"); sym_cover("sc"); } else { sym_check(nj_nout == (form == 6), "nothing runs after the abort"); sym_cover("abort"); }
  sym_out(ok); nj_end();
}
// Longer computations: chains of additive operators, and loops that accumulate a symbolic step.
void t_int_long(void) {
  int n = 3 + sym_choose("n", 4), form = sym_choose("form", 3), ops = n <= 4 ? sym_choose("ops", 1 << (n - 1)) : sym_choose("ops", 3) * 21; long long v[8]; static const char *const N[] = {"A","B","C","D","E","F"}; StaticMapSlot in[8]; for (int i = 0; i < n; i++) { v[i] = sym_i64("v"); in[i] = (StaticMapSlot) NJ_INT("", v[i]); in[i].name = N[i]; } in[n] = (StaticMapSlot) NJ_END; if (!nj_boot(in)) sym_check(0, "boot"); sb0(); long long x = v[0]; bool o = false;
  if (form == 0) { sb("out(A"); for (int i = 1; i < n; i++) { sbc(ops >> (i - 1) & 1 ? '-' : '+'); sb(N[i]); } sb(");"); for (int i = 1; i < n && !o; i++) o = ops >> (i - 1) & 1 ? __builtin_sub_overflow(x, v[i], &x) : __builtin_add_overflow(x, v[i], &x); }
  else if (form == 1) { if (ops > 1) sym_end(); sb("s=A; i=0; while i<"); sbi(2 * n); sb(ops ? ": { s=s-B; i=i+1; } out(s);" : ": { s=s+B; i=i+1; } out(s);"); for (int i = 0; i < 2 * n && !o; i++) o = ops ? __builtin_sub_overflow(x, v[1], &x) : __builtin_add_overflow(x, v[1], &x); }
  else { if (ops) sym_end(); static const int K[] = {2, 3, 10, 256, 1000, 65536, -1}; int k = K[sym_choose("k", 7)]; sb("s=A; i=0; while i<"); sbi(n); sb(": { s=s*"); if (k < 0) sb("(-1)"); else sbi(k); sb("; i=i+1; } out(s);"); for (int i = 0; i < n && !o; i++) o = __builtin_mul_overflow(x, (long long)k, &x); }
  bool ok = sb_run(); sym_check(ok == !o, "the program aborts exactly when a step overflows"); sym_check(nj_nout == !o, "nothing is printed after the failing step"); if (ok) { sym_check(nj_isint(0, x), "the exact result"); sym_cover("exact"); } else sym_cover("abort"); nj_end();
}
// Unary operators applied one after another to any kind of value: the innermost first, each rejecting what it isn't made for.
void t_unary_chain(void) {
  int n = 1 + sym_choose("n", 3), k = sym_choose("kind", 7), form = sym_choose("form", 3), op[3]; for (int i = 0; i < n; i++) op[i] = sym_choose("op", 3); long long v = sym_i64("i"); double f = sym_f64("f"); bool b = sym_bool("b"); StaticMapSlot in[] = { NJ_INT("I", v), NJ_FLT("F", f), NJ_BOOL("B", b), NJ_END }; if (!nj_boot(in)) sym_check(0, "boot");
  static const char *const K[] = {"I","F","B","none","'s'","[1]","int"}, *const O[] = {"- ","not ","+ "}; sb0(); sb("out(7); "); static const char *const F1[] = {"x = ","out(","if true: x = "}, *const F2[] = {"; out(x);","); ","; out(x);"}; sb(F1[form]); for (int i = 0; i < n; i++) sb(O[op[i]]); sb(K[k]); sb(F2[form]);
  bool fail = false; for (int i = n - 1; i >= 0 && !fail; i--) { if (op[i] == 0) { if (k == 0) fail = __builtin_sub_overflow(0LL, v, &v); else if (k == 1) f = -f; else fail = true; } else if (op[i] == 1) { if (k == 2) b = !b; else fail = true; } else if (k > 1) sym_end(); }
  bool ok = sb_run(); sym_check(ok == !fail, "each operator accepts exactly its kind of operand"); sym_check(nj_nout == (fail ? 1 : 2), "nothing runs after the failing operator"); if (ok) { if (k == 0) sym_check(nj_isint(1, v), "integer"); else if (k == 1) sym_check(nj_isflt(1, f), "float"); else sym_check(nj_isbool(1, b), "boolean"); sym_cover("value"); } else sym_cover("rejected"); nj_end();
}
